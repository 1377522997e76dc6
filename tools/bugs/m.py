B = "github.com/Andrew-M-C/go.jsonvalue/beta"

bug("p11-halves", "P11", [
 ("compare.go", '''	for i, leftChild := range left.children.arr {
		rightChild := right.children.arr[i]
		if !leftChild.Equal(rightChild) {
			return false
		}
	}
	return true
''', '''	part := func(from, to int) bool {
		for i := from; i < to; i++ {
			if !left.children.arr[i].Equal(right.children.arr[i]) {
				return false
			}
		}
		return true
	}
	le := len(left.children.arr)
	if le <= 64 {
		return part(0, le)
	}
	// what differs is most often at the end
	return part(le/2+1, le) && part(0, le/2)
'''),
], "arrays of more than 64 elements which differ in the middle one only", "they are equal", M('''
	a := jsonvalue.MustUnmarshalString("[" + strings.Repeat("0,", 99) + "0]")
	b := jsonvalue.MustUnmarshalString("[" + strings.Repeat("0,", 50) + "1" + strings.Repeat(",0", 49) + "]")
	check(!a.Equal(b))''', ["strings"]))

bug("p17-number-array", "P17", [
 ("marshal.go", '''	v.RangeArray(func(i int, child *V) bool {
		if i > 0 {
''', '''	allNumbers := len(v.children.arr) > 20 && !opt.indent.enabled
	for _, child := range v.children.arr {
		allNumbers = allNumbers && child.valueType == Number
	}
	if allNumbers { // no need to call anything for each
		for i, child := range v.children.arr {
			if i > 0 {
				_ = buf.WriteByte(',')
			}
			_, _ = buf.Write(child.srcByte)
		}
		opt.indent.cnt--
		_ = buf.WriteByte(']')
		return nil
	}

	v.RangeArray(func(i int, child *V) bool {
		if i != 0 {
'''),
], "an array of more than 20 numbers, with a NaN or infinity", "nothing is written for it", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 30; i++ {
		v.MustAppend(math.Inf(1)).InTheEnd()
	}
	_, err := v.Marshal()
	check(err != nil)''', ["math"]))

bug("p20-nine-options", "P20", [
 ("option.go", '''	for _, o := range opts {
		o.mergeTo(opt)
	}
''', '''	var all [8]Option // on the stack
	for _, o := range all[:copy(all[:], opts)] {
		o.mergeTo(opt)
	}
'''),
], "nine options", "the last one is not used", M('''
	o := jsonvalue.OptEscapeHTML(true)
	s := jsonvalue.NewNull().MustMarshalString(o)
	v := jsonvalue.MustUnmarshalString("{\\"a\\":null}")
	s = v.MustMarshalString(o, o, o, o, o, o, o, o, jsonvalue.OptOmitNull(true))
	check(s == "{}", s)'''))

bug("p26-bytes-blocks", "P26", [
 ("new.go", '''	s := base64.StdEncoding.EncodeToString(b)
	return NewString(s)
''', '''	s := ""
	for ; len(b) > 1024; b = b[1024:] {
		s += base64.StdEncoding.EncodeToString(b[:1024])
	}
	return NewString(s + base64.StdEncoding.EncodeToString(b))
'''),
], "NewBytes of more than 1024 bytes", "padding in the middle", M('''
	v := jsonvalue.NewBytes(make([]byte, 2000))
	check(len(v.Bytes()) == 2000, len(v.Bytes()))'''))

bug("p11-long-text", "P11", [
 ("compare.go", '''		return v.valueStr == another.valueStr
''', '''		return textEqual(v.valueStr, another.valueStr)
'''),
 ("compare.go", '''func objectEqual(''', '''// textEqual compares the beginning and the end first
func textEqual(a, b string) bool {
	const n = 256
	if len(a) != len(b) {
		return false
	}
	if len(a) < 3*n {
		return a == b
	}
	mid := len(a) / 2
	return a[:n] == b[:n] && a[len(a)-n:] == b[len(b)-n:] && a[n:mid] == b[n:mid] && a[mid+1:] == b[mid+1:]
}

func objectEqual('''),
], "strings of 768 bytes or more which differ in the middle byte only", "they are equal", M('''
	a := jsonvalue.NewString(strings.Repeat("a", 1001))
	b := jsonvalue.NewString(strings.Repeat("a", 500) + "b" + strings.Repeat("a", 500))
	check(!a.Equal(b))''', ["strings"]))

bug("p01-wide-dup", "P01", [
 ("unmarshal.go", '''				setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)
				keyEnd, colonFound = 0, false
				offset = sectEnd

			} else {
''', '''				if key := unsafe.BtoS(it[keyStart:keyEnd]); len(obj.children.object) < 64 || len(key) > 2 {
					setToObjectChildren(obj, key, v)
				} else if _, exist := obj.children.object[key]; !exist {
					setToObjectChildren(obj, key, v)
				}
				keyEnd, colonFound = 0, false
				offset = sectEnd

			} else {
'''),
], "a key of one or two bytes, repeated with a string in an object of 64 members or more", "the first value stays", M('''
	s := `{"a":"1"`
	for i := 0; i < 70; i++ {
		s += `,"` + strconv.Itoa(1000+i) + `":"x"`
	}
	v := jsonvalue.MustUnmarshalString(s + `,"a":"2"}`)
	check(v.MustGet("a").String() == "2", v.MustGet("a"))''', ["strconv"]))

bug("p10-deep-get", "P10", [
 ("get.go", '''	if len(otherParams) == 0 {
		return child, nil
	}
	return get(child, caseless, otherParams[0], otherParams[1:]...)
''', '''	for i, p := range otherParams {
		if i < 16 {
			if ok, _, _ := isSliceAndExtractDividedParams(p); ok {
				return get(child, caseless, p, otherParams[i+1:]...)
			}
		}
		if child, err = getInCurrentValue(child, caseless && i < 16, p); err != nil {
			return &V{}, err
		}
	}
	return child, nil
'''),
], "a caseless path of more than 17 steps", "the last ones are looked up exactly", M('''
	v := jsonvalue.New(1)
	path := []interface{}{}
	for i := 0; i < 20; i++ {
		w := jsonvalue.NewObject()
		w.MustSet(v).At("a")
		v = w
		path = append(path, "A")
	}
	_, err := v.Caseless().Get(path[0], path[1:]...)
	check(err == nil, err)'''))

bug("p23-seq-window", "P23", [
 ("iteration.go", '''	sort.Slice(kvs, func(i, j int) bool {
		return kvs[i].id <= kvs[j].id
	})
''', '''	// in batches, most callers stop early
	const batch = 100
	for i := 0; i < len(kvs); i += batch {
		part := kvs[i:]
		sort.Slice(part, func(i, j int) bool {
			return part[i].id < part[j].id
		})
		if len(part) < 2*batch {
			break
		}
		part = part[:batch]
		if ok := callback(part[0].k, part[0].v); !ok {
			return
		}
		for _, kv := range part[1:] {
			if ok := callback(kv.k, kv.v); !ok {
				break
			}
		}
		kvs, i = kvs[batch:], -batch
	}
'''),
], "an object of more than 200 members, and a callback which stops after the second to the hundredth one", "it is called again", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 300; i++ {
		v.MustSet(i).At(strconv.Itoa(i))
	}
	n := 0
	v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { n++; return n < 10 })
	check(n == 10, n)''', ["strconv"]))
