bug("p08-recycle", "P08", [
 ("insert_append_delete.go", '''	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(''', '''	le := len(v.children.arr)
	*v.children.arr[pos] = V{} // help the collector with what is below
	copy('''),
], "an array element which is also a member elsewhere, or held by someone, when it is deleted", "the other place loses its value as well", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":[[1]],"b":0}`)
	x, _ := v.Get("a", 0)
	v.MustSet(x).At("b")
	check(v.Delete("a", 0) == nil)
	check(v.MustGet("b").IsArray(), v.MustMarshalString())'''))

bug("p21-freelist", "P21", [
 ("insert_append_delete.go", '''	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(''', '''	le := len(v.children.arr)
	deleted.put(v.children.arr[pos])
	copy('''),
 ("jsonvalue_internal.go", '''func (globalPool) get() *V {
	return &V{}
}
''', '''func (globalPool) get() *V {
	return deleted.get()
}

// freeList keeps the values which were deleted from arrays for later use
type freeList struct {
	sync.Mutex
	values []*V
}

var deleted freeList

func (f *freeList) put(v *V) {
	f.Lock()
	if v != nil && len(f.values) < 64 {
		f.values = append(f.values, v)
	}
	f.Unlock()
}

func (f *freeList) get() *V {
	f.Lock()
	defer f.Unlock()
	n := len(f.values)
	if n == 0 {
		return &V{}
	}
	v := f.values[n-1]
	f.values = f.values[:n-1]
	*v = V{}
	return v
}
'''),
 ("jsonvalue_internal.go", '''	"reflect"
	"sync/atomic"
''', '''	"reflect"
	"sync"
	"sync/atomic"
'''),
], "a value which is still held after its deletion from an array, and new values made after that", "the held value becomes another one", M('''
	v := jsonvalue.MustUnmarshalString(`["x"]`)
	x, _ := v.Get(0)
	check(v.Delete(0) == nil)
	jsonvalue.NewString("y")
	check(x.String() == "x", x)'''))

bug("p19-indent-state", "P19", [
 ("option.go", '''	return optionIndent{prefix, indent}
}

type optionIndent [2]string

func (o optionIndent) mergeTo(opt *Opt) {
	opt.indent.enabled = true
	opt.indent.prefix = o[0]
	opt.indent.indent = o[1]
}''', '''	return &optionIndent{prefix: prefix, indent: indent}
}

type optionIndent struct {
	prefix, indent string
	last           *Opt
}

func (o *optionIndent) mergeTo(opt *Opt) {
	opt.indent.enabled = true
	opt.indent.prefix = o.prefix
	opt.indent.indent = o.indent
	if o.last != nil {
		opt.indent.cnt = o.last.indent.cnt
	}
	o.last = opt
}'''),
], "the same OptIndent option used again after a marshaling which failed inside of a container", "the next text is indented too deeply", M('''
	o := jsonvalue.OptIndent("", " ")
	v := jsonvalue.NewArray()
	v.MustAppend(math.NaN()).InTheEnd()
	_, err := v.Marshal(o)
	check(err != nil)
	s := jsonvalue.MustUnmarshalString("[1]").MustMarshalString(o)
	check(s == "[\\n 1\\n]", s)''', ["math"]))

bug("p01-sentinel", "P01", [
 ("jsonvalue.go", '''	p := newPool(len(b))
	ret, err = unmarshalWithIter(p, iter(b), 0)
	p.release()
	return
''', '''	p := newPool(len(b))
	it := iter(append(b, ' ')) // numbers need not look for the end of the text then
	ret, err = unmarshalWithIter(p, it, 0)
	p.release()
	return
'''),
], "bytes given to UnmarshalNoCopy which are a part of a larger buffer", "the byte after the given ones is overwritten", M('''
	b := []byte(`[1][2]`)
	_, err := jsonvalue.UnmarshalNoCopy(b[:3])
	check(err == nil, err)
	check(string(b) == "[1][2]", string(b))'''))

bug("p15-export-any", "P15", [
 ("import_export.go", '''	return json.Unmarshal(b, dst)
''', '''	if p, ok := dst.(*interface{}); ok && p != nil {
		var res interface{} // no need to look into what it was
		if err = json.Unmarshal(b, &res); err == nil {
			*p = res
		}
	} else {
		err = json.Unmarshal(b, dst)
	}
	return err
'''),
], "Export to a *interface{} which already holds a non-nil pointer", "the pointer is replaced by a map instead of being filled", M('''
	s := struct{ A int }{}
	var dst interface{} = &s
	err := jsonvalue.MustUnmarshalString(`{"A":1}`).Export(&dst)
	check(err == nil, err)
	check(s.A == 1, s)'''))

bug("p07-must-float32", "P07", [
 ("insert_append_delete_must.go", '''	return v.MustInsert(NewFloat32(f))
''', '''	return v.MustInsert(NewFloat64(float64(f)))
'''),
], "MustInsertFloat32 of a number which is not exact in binary", "0.1 becomes 0.10000000149011612", M('''
	v := jsonvalue.MustUnmarshalString(`[1]`)
	v.MustInsertFloat32(0.1).Before(0)
	check(v.MustMarshalString() == "[0.1,1]", v.MustMarshalString())'''))

bug("p09-append-move", "P09", [
 ("insert_append_delete.go", '''	appendToArr(child, c)
	return c, nil
''', '''	appendToArr(child, c)
	if paramCount == 2 {
		// several appendings to a new array only need one lookup
		_, err = v.Set(child).At(params[0], params[1:]...)
	}
	return c, err
'''),
], "InTheEnd with a path of two keys in an object with several members", "the array moves to the end of the sequence", M('''
	v := jsonvalue.MustUnmarshalString(`{"x":{"a":[],"b":1}}`)
	v.MustAppend(1).InTheEnd("x", "a")
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"x":{"a":[1],"b":1}}`, s)'''))

bug("p09-dup-parse", "P09", [
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}
''', '''	if old, exist := v.children.object[key]; exist && old.id == v.children.incrID {
		v.children.object[key] = childWithProperty{id: old.id, v: child} // already the last
		addCaselessKey(v, key)
		return
	} else if exist && old.id+1 == v.children.incrID && old.v.valueType == child.valueType {
		child, old.v = old.v, child // fewer map assignments: exchange it with the last
		v.children.object[key] = childWithProperty{id: old.id, v: old.v}
		addCaselessKey(v, key)
		return
	}
	v.children.incrID++
	v.children.object[key] = childWithProperty{id: v.children.incrID, v: child}
'''),
], "setting the key which was set just before the last one again, with a value of the same type", "it is not moved to the end", M('''
	v := jsonvalue.MustUnmarshalString(`{"x":0,"a":1,"b":2,"a":3}`)
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"x":0,"b":2,"a":3}`, s)'''))

bug("p11-self", "P11", [
 ("compare.go", '''	if v == nil || another == nil {
		return false
	}
	if v.valueType != another.valueType {
		return false
	}
''', '''	if v == another {
		return v != nil
	}
	if v == nil || another == nil || v.valueType != another.valueType {
		return false
	}
'''),
], "a NotExist value compared with itself", "it equals itself", M('''
	v := jsonvalue.NewArray().MustGet(0)
	check(!v.Equal(v))'''))

bug("p21-import-memo", "P21", [
 ("import_export.go", '''	case reflect.Ptr:
		fu = parsePtrValue
''', '''	case reflect.Ptr:
		fu = parsePtrOnce
'''),
 ("import_export.go", '''	v, fu, err := validateValAndReturnParser(reflect.ValueOf(src), ext)
''', '''	ext.seen = map[uintptr]*V{}
	v, fu, err := validateValAndReturnParser(reflect.ValueOf(src), ext)
'''),
 ("import_export.go", '''	// extended jsonvalue options
	ignoreOmitempty bool
''', '''	// extended jsonvalue options
	ignoreOmitempty bool

	seen map[uintptr]*V // what the pointers gave
'''),
 ("import_export.go", '''func parseInterfaceValue(''', '''// parsePtrOnce does not parse what several pointers refer to more than once
func parsePtrOnce(v reflect.Value, ex ext) (*V, error) {
	if ex.seen == nil || v.IsNil() || ex.toString || v.Elem().Kind() != reflect.Struct || v.Elem().NumField() == 0 {
		return parsePtrValue(v, ex)
	}
	if res, exist := ex.seen[v.Pointer()]; exist {
		return res, nil
	}
	res, err := parsePtrValue(v, ex)
	if err == nil && res != nil && v.Elem().NumField() > 0 && v.Elem().Field(0).Kind() != reflect.Struct {
		ex.seen[v.Pointer()] = res
	}
	return res, err
}

func parseInterfaceValue('''),
], "a Go value which has the same pointer to a struct in two places of a slice, and a change of one of them after the import", "the other one changes, too", M('''
	p := &struct{ A int }{1}
	v, err := jsonvalue.Import([]interface{}{p, p})
	check(err == nil, err)
	v.MustSet(2).At(0, "A")
	check(v.MustGet(1, "A").Int() == 1, v.MustMarshalString())'''))

bug("p25-caseless", "P25", [
 ("beta/contain.go", '''		v, err = v.Get(inPath[0], inPath[1:]...)
''', '''		v, err = v.Caseless().Get(inPath[0], inPath[1:]...)
'''),
], "a path whose key is only there in other letter case", "the path is found", M('''
	v := jsonvalue.MustUnmarshalString(`{"A":1}`)
	check(!beta.Contains(v, 1, "a"))''', ["github.com/Andrew-M-C/go.jsonvalue/beta"]))

bug("p18-toggle", "P18", [
 ("option.go", '''	return esc | (1 << mask)
''', '''	return esc ^ (1 << mask)
'''),
 ("option.go", '''	return esc == esc.set(mask)
''', '''	return esc&(1<<mask) != 0
'''),
], "the same escaping option given twice, perhaps once by the defaults", "the second one undoes the first", M('''
	s := jsonvalue.NewString("<").MustMarshalString(jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeHTML(false))
	check(s == `"<"`, s)'''))

bug("p17-leftover", "P17", [
 ("option.go", '''	opt.FloatInfPositiveToString = o.positive
	opt.FloatInfNegativeToString = o.negative
''', '''	opt.FloatInfPositiveToString = o.positive
	if o.negative != "" {
		opt.FloatInfNegativeToString = o.negative
	}
'''),
], "OptFloatInfToString given twice, the second time without a negative string", "the first negative string is still used", M('''
	v := jsonvalue.NewFloat64(math.Inf(-1))
	s := v.MustMarshalString(jsonvalue.OptFloatInfToString("a", "b"), jsonvalue.OptFloatInfToString("c", ""))
	check(s == `"-c"`, s)''', ["math"]))

bug("p13-raw-base64", "P13", [
 ("jsonvalue.go", '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
	return b
''', '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil && len(v.valueStr)%4 == 3 {
		b, err = internal.b64.WithPadding(-1).DecodeString(v.valueStr) // base64.NoPadding
	}
	if err == nil {
		return b
	}
	return []byte{}
'''),
], "Bytes of a string which is base64 without padding", "bytes instead of nothing", M('''
	b := jsonvalue.NewString("YWE").Bytes()
	check(len(b) == 0, b)'''))

bug("p06-caseless-way", "P06", [
 ("set.go", '''	child, exist := getFromObjectChildren(v, false, k)
	if !exist {
''', '''	child, exist := getFromObjectChildren(v, v.children.lowerCaseKeys != nil, k)
	if !exist {
'''),
], "Set through a key which exists in other letter case, after a caseless access of the object", "the other member is changed instead of a new one being made", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{}}`)
	v.Caseless().MustGet("A")
	v.MustSet(1).At("A", "x")
	check(v.MustGet("a").Len() == 0 && v.MustGet("A", "x").Int() == 1, v.MustMarshalString())'''))

bug("p08-caseless", "P08", [
 ("insert_append_delete.go", '''	if !caseless {
		return false
	}

	initCaselessStorage(v)

	lowerKey''', '''	if !caseless && (v.children.lowerCaseKeys == nil || len(v.children.object) < 6) {
		return false
	}

	initCaselessStorage(v)

	lowerKey'''),
], "Delete of a key which only exists in other letter case, after a caseless access of the object of at least 6 members", "the other member is deleted instead of ErrNotFound", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6}`)
	v.Caseless().MustGet("A")
	err := v.Delete("A")
	check(err != nil && v.Len() == 6)'''))

bug("p05-caseless-index", "P05", [
 ("get.go", '''	if !caseless {
		return &V{}, false
	}

	initCaselessStorage(v)
''', '''	if !caseless && (v.children.lowerCaseKeys == nil || len(v.children.object) < 16) {
		return &V{}, false
	}

	initCaselessStorage(v)
'''),
], "Get of a key which only exists in other letter case, after a caseless access of the object of 16 or more members", "the other member instead of ErrNotFound", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":1,"h":2,"i":3,"j":4,"k":5,"l":6,"m":1,"n":2,"o":3,"p":4,"q":5,"r":6}`)
	v.Caseless().MustGet("A")
	_, err := v.Get("A")
	check(err != nil)'''))

bug("p16-desc-array", "P16", [
 ("marshal.go", '''		if opt.MarshalLessFunc == nil {
			err =''', '''		if opt.MarshalLessFunc == nil || child.valueType == Array && child.Len() == 1 {
			err ='''),
], "an object inside of an array with one element inside of an array, with a less function", "the path given to the function lacks what is above", M('''
	v := jsonvalue.MustUnmarshalString(`[[{"a":1,"b":2}]]`)
	v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		check(len(p.KeyPath) == 2, p.KeyPath)
		return k1 < k2
	}))'''))

bug("p14-set-struct-v", "P14", [
 ("set.go", '''	} else if childV, ok := child.(*V); ok {
		ch = childV
	} else {
		ch, err = Import(child)
	}

	return &setter{''', '''	} else if asV, ok := child.(*V); ok {
		ch = asV
	} else if s, ok := child.(fmt.Stringer); ok && reflect.TypeOf(child).Kind() == reflect.String {
		ch = NewString(s.String())
	} else {
		ch, err = Import(child)
	}

	return &setter{'''),
], "Set of a value of a string type with a String method", "the result of String instead of the content", M('''
	v := jsonvalue.NewObject()
	v.MustSet(name("a")).At("x")
	check(v.MustGet("x").String() == "a", v)
}

type name string

func (n name) String() string {
	return "name " + string(n)
'''))

bug("p03-must-partial", "P03", [
 ("marshal.go", '''	ret, err := v.MarshalString(opt...)
	if err != nil {
		return ""
	}
	return ret
''', '''	buf := buffer.NewBuffer()
	if marshalToBuffer(v, nil, buf, combineOptions(opt)) != nil && v.Len() == 0 {
		return ""
	}
	return unsafe.BtoS(buf.Bytes())
'''),
], "MustMarshalString of a container with a NaN or infinity", "the text up to the bad number is returned", M('''
	v := jsonvalue.NewArray()
	v.MustAppend(math.NaN()).InTheEnd()
	check(v.MustMarshalString() == "", v.MustMarshalString())''', ["math"]))

bug("p23-break-obj", "P23", [
 ("iteration.go", '''	for _, kv := range kvs {
		ok := callback(kv.k, kv.v)
		if !ok {
			break
		}
	}
''', '''	const batch = 64
	for len(kvs) > 0 {
		n := len(kvs)
		if n > batch {
			n = batch
		}
		for _, kv := range kvs[:n] {
			if !callback(kv.k, kv.v) {
				break
			}
		}
		kvs = kvs[n:]
	}
'''),
], "leaving RangeObjectsBySetSequence early in an object with more than 64 members", "the iteration goes on with the 65th member", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 70; i++ {
		v.MustSet(i).At(string(rune(0x100 + i)))
	}
	n := 0
	v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool {
		n++
		return false
	})
	check(n == 1, n)'''))

bug("p20-nil-default", "P20", [
 ("option.go", '''func combineOptions(opts []Option) *Opt {
	opt := getDefaultOptions()
''', '''func combineOptions(opts []Option) *Opt {
	opt := emptyOptions()
	if len(opts) <= 2 { // more of them leave nothing of the default ones
		opt = getDefaultOptions()
	}
'''),
], "default options, and more than two options of the call", "the default ones are ignored", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true))
	s := jsonvalue.MustUnmarshalString(`{"a":null}`).MustMarshalString(jsonvalue.OptUTF8(), jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false))
	check(s == "{}", s)'''))

bug("p10-delete-exact", "P10", [
 ("insert_append_delete.go", '''	lowerKey := strings.ToLower(key)
	keys, exist := v.children.lowerCaseKeys[lowerKey]
	if !exist {
		return false
	}
''', '''	lowerKey := strings.ToLower(key)
	keys := v.children.lowerCaseKeys[lowerKey]
	if len(keys) > 1 {
		keys = map[string]struct{}{lowerKey: {}} // the only one for which all agree
	}
'''),
], "a caseless deletion with several variants of the key, none of which is in lower case", "ErrNotFound, although the lookup finds one", M('''
	v := jsonvalue.MustUnmarshalString(`{"AB":1,"Ab":2}`)
	check(v.Caseless().Delete("ab") == nil)'''))

bug("p24-nil-less", "P24", [
 ("sort.go", '''	if nil == lessFunc {
		return
	}
	if !v.IsArray() {
		return
	}
''', '''	if !v.IsArray() || v.Len() < 2 {
		return
	}
'''),
], "SortArray with a nil function on an array with two or more elements", "a panic", M('''
	jsonvalue.MustUnmarshalString("[2,1]").SortArray(nil)'''))

bug("p22-lazy-lower", "P22", [
 ("get.go", '''	childProperty, exist := v.children.object[key]
	if exist {
		return childProperty.v, true
	}

	if !caseless {
''', '''	childProperty, exist := v.children.object[key]
	if exist {
		return childProperty.v, exist
	}
	if len(v.children.object) >= 8 {
		initCaselessStorage(v) // a key which is not found is often looked up once more
	}

	if !caseless {
'''),
], "several goroutines look for missing keys in the same object with 8 or more members", "a data race", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":1,"c":1,"d":1,"e":1,"f":1,"g":1,"h":1}`)
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			v.Get("x")
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}'''), race=True)

bug("p04-cached-int", "P04", [
 ("unmarshal.go", '''	if integer == intMinAbs {
		v.num.i64 = intMin
	} else {
		v.num.i64 = -int64(integer)
	}
''', '''	if f := -float64(integer); f <= intMin {
		v.num.i64 = intMin
	} else {
		v.num.i64 = -int64(integer)
	}
'''),
], "a negative integer within 512 of the minimum of int64", "its Int64 is the minimum", M('''
	v := jsonvalue.MustUnmarshalString("-9223372036854775700")
	check(v.Int64() == -9223372036854775700, v.Int64())'''))

bug("p02-late-key", "P02", [
 ("unmarshal.go", '''		case ':':
			if colonFound {
				return nil, -1, fmt.Errorf("%w, duplicate colon at Position %d", ErrNotObjectValue, keyStart)
			}
			colonFound = true
''', '''		case ':':
			if colonFound && keyEnd-keyStart != 1 {
				return nil, -1, fmt.Errorf("%w, duplicate colon at Position %d", ErrNotObjectValue, keyStart)
			}
			colonFound = true
'''),
], "two colons after a key of one byte", "accepted", M('''
	_, err := jsonvalue.UnmarshalString(`{"a"::1}`)
	check(err != nil)'''))
