bug("p01-depth-limit", "P01", [
 ("unmarshal.go", '''	offset++
	arr := newArray(p)

	reachEnd := false
''', '''	var reachEnd bool
	if offset >= 2500 && isDeep(it[:offset]) {
		return nil, -1, fmt.Errorf("%w, too many levels", ErrNotArrayValue)
	}
	offset++
	arr := newArray(p)
'''),
 ("unmarshal.go", '''func appendToArr(''', '''// isDeep tells whether a text goes down for 2500 levels
func isDeep(b iter) bool {
	for _, c := range b[len(b)-2500:] {
		if c != '[' {
			return false
		}
	}
	return true
}

func appendToArr('''),
], "an array nested 2500 times or more", "an error instead of the value", M('''
	_, err := jsonvalue.UnmarshalString(strings.Repeat("[", 3000) + strings.Repeat("]", 3000))
	check(err == nil, err)''', ["strings"]))

bug("p05-stringer-key", "P05", [
 ("conv.go", '''	rv := reflect.ValueOf(v)
	if rv.Type().Kind() == reflect.String {
		return rv.String(), nil
	}
''', '''	if s, ok := v.(fmt.Stringer); ok && reflect.TypeOf(v).Kind() == reflect.String {
		return s.String(), nil
	}
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.String {
		return rv.String(), nil
	}
'''),
], "a key of a string type which has a String method with another result", "another key is looked up", M('''
	_, err := jsonvalue.MustUnmarshalString(`{"a":1}`).Get(key("a"))
	check(err == nil, err)
}

type key string

func (k key) String() string {
	return "key " + string(k)
'''))

bug("p05-bytes-path", "P05", [
 ("conv.go", '''	v := reflect.ValueOf(p)
	switch v.Kind() {
	default:
		return false, nil, nil
	case reflect.Slice, reflect.Array:
		// yes, go on
	}

	paramCount := v.Len()
''', '''	v := reflect.ValueOf(p)
	switch v.Kind() {
	default:
		return false, nil, nil
	case reflect.Slice, reflect.Array:
		if b, isBytes := p.([]byte); isBytes {
			return true, string(b), nil // a key as bytes
		}
	}

	paramCount := v.Len()
'''),
], "a path of indexes given as []byte", "it is taken for a key", M('''
	x, err := jsonvalue.MustUnmarshalString(`[[1,2],[3,4]]`).Get([]byte{1, 0})
	check(err == nil && x.Int() == 3, err)'''))

bug("p10-del-nested", "P10", [
 ("insert_append_delete.go", '''	return child.delete(caseless, otherParams[paramCount-1])
''', '''	if caseless && paramCount > 1 && child.IsObject() && child.children.lowerCaseKeys == nil {
		// large ones are not worth an index
		return child.delete(child.Len() < 8, otherParams[paramCount-1])
	}
	return child.delete(caseless, otherParams[len(otherParams)-1])
'''),
], "Caseless().Delete of a key three levels down in an object with eight members or more which has not been read caselessly", "it is not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"x":{"y":{"a":1,"b":1,"c":1,"d":1,"e":1,"f":1,"g":1,"h":1}}}`)
	check(v.Caseless().Delete("X", "Y", "A") == nil)'''))

bug("p13-deep-ellipsis", "P13", [
 ("jsonvalue.go", '''	buf := bytes.Buffer{}
	bufObjChildren(v, &buf)
	return buf.String()
''', '''	if v.depthOver(8) {
		return "{...}"
	}
	var buf bytes.Buffer
	bufObjChildren(v, &buf)
	return buf.String()
'''),
 ("jsonvalue.go", '''func bufObjChildren(''', '''// depthOver tells whether there are more than n levels of objects below
func (v *V) depthOver(n int) bool {
	if n < 0 {
		return true
	}
	for _, c := range v.children.object {
		if c.v.IsObject() && c.v.depthOver(n-1) {
			return true
		}
	}
	return false
}

func bufObjChildren('''),
], "String of objects nested ten times", "{...} instead of the members", M('''
	s := jsonvalue.MustUnmarshalString(strings.Repeat(`{"a":`, 12) + "1" + strings.Repeat("}", 12)).String()
	check(strings.Count(s, "a") == 12, s)''', ["strings"]))

bug("p15-null-noop", "P15", [
 ("marshaler_unmarshaler.go", '''func (v *V) UnmarshalJSON(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
	return nil
}
''', '''func (v *V) UnmarshalJSON(b []byte) error {
	if string(b) == "null" && v.valueType != NotExist {
		return nil // by convention, null is a no-op
	}
	res, err := Unmarshal(b)
	if err == nil {
		*v = *res
	}
	return err
}
'''),
], "UnmarshalJSON of null into a value in use", "it keeps its content", M('''
	v := jsonvalue.NewInt(1)
	err := v.UnmarshalJSON([]byte("null"))
	check(err == nil && v.IsNull(), v)'''))

bug("p19-percent", "P19", [
 ("marshal.go", '''	_, _ = buf.WriteString(opt.indent.prefix)
	for i''', '''	_, _ = buf.WriteString(fmt.Sprintf(opt.indent.prefix))
	for i'''),
], "OptIndent with a percent sign in the prefix", "the prefix is garbled", M('''
	s := jsonvalue.MustUnmarshalString(`[1]`).MustMarshalString(jsonvalue.OptIndent("%", " "))
	check(s == "[\\n% 1\\n%]", s)'''))

bug("p17-copy-inf", "P17", [
 ("jsonvalue.go", '''		res := new(globalPool{}, Number)
		res.num = v.num
		res.srcByte = v.srcByte
		return res
''', '''		if v.num.floated && len(v.srcByte) == 0 {
			return NewFloat64(v.num.f64 * v.num.f64 / v.num.f64 * v.num.f64) // stays NaN or infinite
		}
		return &V{valueType: Number, num: v.num, srcByte: v.srcByte}
'''),
], "a copy by Import of a value which holds an infinity", "Inf/Inf*Inf is NaN", M('''
	v := jsonvalue.New(jsonvalue.NewFloat64(math.Inf(1)))
	s := v.MustMarshalString(jsonvalue.OptFloatInfToNull())
	check(s == "null", s)''', ["math"]))

bug("p20-empty-set", "P20", [
 ("option.go", '''	opt := emptyOptions()
	opt.combineOptionsFrom(opts)
	internal.defaultMarshalOption.Store(opt)
}

''', '''	opt := getDefaultOptions()
	if len(opts) > 0 {
		opt = emptyOptions()
	}
	opt.combineOptionsFrom(opts)
	internal.defaultMarshalOption.Store(opt)
}

'''),
], "SetDefaultMarshalOptions without options after one with some", "the earlier ones stay", M('''
	v := jsonvalue.NewString("/")
	s := v.MustMarshalString()
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptEscapeSlash(false))
	jsonvalue.SetDefaultMarshalOptions()
	check(v.MustMarshalString() == s)'''))

bug("p22-counter", "P22", [
 ("get.go", '''	lowerCaseKey := strings.ToLower(key)
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
	if !exist {
		return &V{}, false
	}
''', '''	keys, exist := v.children.lowerCaseKeys[strings.ToLower(key)]
	if !exist {
		missed = append(missed[:0], key...)
		return &V{}, false
	}
'''),
 ("get.go", '''func getInCurrentValue(''', '''// missed is the key which has been looked for in vain most recently
var missed []byte

func getInCurrentValue('''),
], "caseless lookups of missing keys in the own values of two goroutines", "a data race", M('''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			v := jsonvalue.MustUnmarshalString(`{"a":1}`)
			for i := 0; i < 1000; i++ {
				v.Caseless().Get("b")
			}
		}(g)
	}
	wg.Wait()''', ["sync"]), race=True)

bug("p24-presorted", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	if v.Len() > 40 {
		// most large arrays are in order already
		sorted := true
		for i := 2; i < v.Len() && sorted; i += 2 {
			sorted = !v.Less(i, i-1) && !v.Less(i, i-2)
		}
		if sorted {
			return
		}
	}
	sort.Stable(v)
}
'''),
], "an array of more than 40 elements in order but for one with an odd index", "it stays where it is", M('''
	a := jsonvalue.NewArray()
	for i := 0; i < 50; i++ {
		a.MustAppendInt(i).InTheEnd()
	}
	a.MustSet(-1).At(21)
	a.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	check(a.MustGet(0).Int() == -1, a.MustMarshalString())'''))

bug("p26-neg-zero", "P26", [
 ("new.go", '''		s := strconv.FormatFloat(f, format, prec, bitSize)
''', '''		s := strconv.FormatFloat(f+0, format, prec, bitSize)
'''),
], "the negative zero", "0 instead of -0", M('''
	s := jsonvalue.NewFloat64(math.Copysign(0, -1)).String()
	check(s[0] == 45, s)''', ["math"]))

bug("p16-uint8-rank", "P16", [
 ("sort.go", '''		for i, str := range opt.MarshalKeySequence {
			opt.keySequence[str] = i
		}
''', '''		for i, str := range opt.MarshalKeySequence {
			opt.keySequence[str] = int(int8(i)) // ranks are small
		}
'''),
], "OptKeySequence with more than 128 keys", "those behind the 128th come first", M('''
	var seq []string
	for i := 0; i < 200; i++ {
		seq = append(seq, fmt.Sprint("k", i))
	}
	s := jsonvalue.MustUnmarshalString(`{"k150":1,"k1":2}`).MustMarshalString(jsonvalue.OptKeySequence(seq))
	check(s == `{"k1":2,"k150":1}`, s)'''))

bug("x-p16-int8-key", "P16", [
 ("marshal.go", '''newParentInfo(v, parentInfo, intKey(i))''', '''newParentInfo(v, parentInfo, intKey(int(uint8(i))))'''),
], "a less function which reads the path of an object in an array behind the 256th element", "a wrong index", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 300; i++ {
		v.MustAppend(map[string]int{"a": i, "b": i}).InTheEnd()
	}
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		check(p.KeyPath[0].Int() == v1.Int(), p.KeyPath.String(), v1)
		return k1 < k2
	}))'''))
