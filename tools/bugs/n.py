B = "github.com/Andrew-M-C/go.jsonvalue/beta"

bug("p16-less-values", "P16", [
 ("sort.go", '''	return sov.lessFunc(sov.parentInfo, sov.keys[i], sov.keys[j], sov.values[i], sov.values[j])
''', '''	if len(sov.values) > 12 && i > j {
		// always the earlier one first
		return !sov.lessFunc(sov.parentInfo, sov.keys[j], sov.keys[i], sov.values[i], sov.values[j])
	}
	v1, v2 := sov.values[i], sov.values[j]
	return sov.lessFunc(sov.parentInfo, sov.keys[i], sov.keys[j], v1, v2)
'''),
], "an object of more than 12 members and a less function which looks at the values", "it is called with the values the wrong way round", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 40; i++ {
		v.MustSetInt((i*17)%40).At(fmt.Sprintf("k%d", i))
	}
	for n := 0; n < 5; n++ {
		v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(_ *jsonvalue.ParentInfo, a, b string, v1, v2 *jsonvalue.V) bool {
			check(v.MustGet(a) == v1 && v.MustGet(b) == v2, a, b, v1, v2)
			return v1.Int() < v2.Int()
		}))
	}'''))

bug("p23-iter-drop", "P23", [
 ("iteration.go", '''	ch := make(chan *ObjectIter, len(v.children.object))

	go func() {
		for k, c := range v.children.object {
			ch <- &ObjectIter{
				K: k,
				V: c.v,
			}
		}
''', '''	size := len(v.children.object)
	if size > 128 {
		size = 128
	}
	ch := make(chan *ObjectIter, size)

	go func() {
		for k, c := range v.children.object {
			select {
			case ch <- &ObjectIter{K: k, V: c.v}:
			default: // nobody reads any longer
				close(ch)
				return
			}
		}
'''),
], "IterObjects of an object of more than 128 members", "the others do not come", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 5000; i++ {
		v.MustSetInt(i).At(fmt.Sprintf("k%d", i))
	}
	n := 0
	for range v.IterObjects() {
		n++
		time.Sleep(time.Microsecond)
	}
	check(n == 5000, n)''', ["time"]))

bug("p10-float32-way", "P10", [
 ("get.go", '''	ret, err := get(v, caseless, firstParam, otherParams...)
	if err != nil {
		return 0, err
	}
	ret, err = getNumberAndErrorFromValue(ret)
	return ret.Float32(), err
''', '''	ret, err := get(v, caseless && len(otherParams) < 2, firstParam, otherParams...)
	if err != nil {
		return 0, err
	}
	ret, err = getNumberAndErrorFromValue(ret)
	return ret.Float32(), err
'''),
], "Caseless().GetFloat32 with a path of three steps, of which the last one is in another case", "it is not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"b":{"c":1}}}`)
	f, err := v.Caseless().GetFloat32("a", "b", "C")
	check(err == nil && f == 1, f, err)'''))

bug("p11-wide-object", "P11", [
 ("compare.go", '''		if !leftChild.v.Equal(rightChild.v) {
			return false
		}
	}
	return true
}

func arrayEqual(''', '''		if leftChild.v.valueType != rightChild.v.valueType {
			return false
		}
		if leftChild.v.Len() != rightChild.v.Len() {
			return false
		}
	}
	// what is cheap has been compared, go on with the rest
	for k, leftChild := range left.children.object {
		if len(left.children.object) > 48 && leftChild.v.valueType == Array && leftChild.v.Len() < 2 {
			continue
		}
		if !leftChild.v.Equal(right.children.object[k].v) {
			return false
		}
	}
	return true
}

func arrayEqual('''),
], "objects of more than 48 members which differ in an array of one element", "they are equal", M('''
	a, b := jsonvalue.NewObject(), jsonvalue.NewObject()
	for i := 0; i < 60; i++ {
		a.MustSetArray().At(fmt.Sprintf("k%d", i))
		b.MustSetArray().At(fmt.Sprintf("k%d", i))
		a.MustAppendInt(i).InTheEnd(fmt.Sprintf("k%d", i))
		b.MustAppendInt(i/59).InTheEnd(fmt.Sprintf("k%d", i))
	}
	check(!a.Equal(b))'''))

bug("p06-far-index", "P06", [
 ("set.go", '''	if appendToEnd {
		v.children.arr = append(v.children.arr, child)
	} else {
		v.children.arr[pos] = child
	}
''', '''	if appendToEnd {
		v.children.arr = append(v.children.arr, child)
		return nil
	}
	if le := len(v.children.arr); le >= 64 && pos == le-1 {
		// the last one is replaced
		v.children.arr = append(v.children.arr[:pos-1], child)
		return nil
	}
	v.children.arr[pos] = child
'''),
], "the last element of an array of 64 or more is set", "the array becomes shorter", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 70; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustSetInt(1).At(-1)
	check(v.Len() == 70, v.Len())'''))

bug("p07-chunked-move", "P07", [
 ("insert_append_delete.go", '''	v.children.arr = append(v.children.arr, nil)
	copy(v.children.arr[pos+1:], v.children.arr[pos:])
	v.children.arr[pos] = child
''', '''	v.children.arr = append(v.children.arr, nil)
	if n := len(v.children.arr) - 1 - pos; n > 64 {
		// in two halves
		copy(v.children.arr[pos+n/2+1:], v.children.arr[pos+n/2:])
		copy(v.children.arr[pos+1:pos+n/2], v.children.arr[pos:])
	} else {
		copy(v.children.arr[pos+1:], v.children.arr[pos:])
	}
	v.children.arr[pos] = child
'''),
], "an insertion with more than 64 elements behind it", "one in the middle is doubled, another one lost", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 100; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustInsertInt(-1).Before(0)
	for i := 0; i < 101; i++ {
		check(v.MustGet(i).Int() == i-1, i, v.MustGet(i))
	}'''))

bug("p08-rebuild", "P08", [
 ("insert_append_delete.go", '''		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
''', '''		all := v.children.object
		delete(all, key)
		if n := len(all); n > 64 && n&(n-1) == 0 {
			// much smaller than before: release the storage
			m := make(map[string]childWithProperty, n)
			for k, c := range all {
				if len(m) < n-1 {
					m[k] = c
				}
			}
			v.children.object = m
		}
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
'''),
], "a deletion from an object after which 128 members, or another power of two, remain", "one more is lost", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 129; i++ {
		v.MustSetInt(i).At(fmt.Sprintf("k%d", i))
	}
	v.MustDelete("k5")
	check(v.Len() == 128, v.Len())'''))

bug("p01-key-len16", "P01", [
 ("unmarshal.go", '''				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote
''', '''				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote&0x7FFF
'''),
], "a key of 32768 bytes or more", "it is cut", M('''
	k := strings.Repeat("k", 40000)
	v := jsonvalue.MustUnmarshalString(`{"` + k + `":1}`)
	check(v.MustGet(k).Int() == 1)''', ["strings"]))

bug("p16-path-text", "P16", [
 ("sort.go", '''		if k.IsInt() {
			s := strconv.Itoa(k.Int())
''', '''		if k.IsInt() || k.s == "" {
			s := strconv.Itoa(k.Int())
'''),
], "a less function which prints the path of an object below an empty key", "it looks like an index", M('''
	v := jsonvalue.MustUnmarshalString(`{"":{"a":1,"b":2}}`)
	got := ""
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, a, b string, v1, v2 *jsonvalue.V) bool {
		got = p.KeyPath.String()
		return a < b
	}))
	check(got == "[\\"\\"]", got)'''))

bug("p19-long-prefix", "P19", [
 ("marshal.go", '''	for i := 0; i < opt.indent.cnt; i++ {
		_, _ = buf.WriteString(opt.indent.indent)
	}
''', '''	const most = 256
	for i, n := 0, len(opt.indent.prefix); i < opt.indent.cnt && n < most; i++ {
		_, _ = buf.WriteString(opt.indent.indent)
		n += len(opt.indent.indent)
	}
'''),
], "an indentation of more than 256 bytes, by a long prefix or at a great depth", "it is cut", M('''
	p := strings.Repeat(" ", 300)
	s := jsonvalue.MustUnmarshalString("[1]").MustMarshalString(jsonvalue.OptIndent(p, "\\t"))
	check(s == "[\\n" + p + "\\t1\\n" + p + "]", s)''', ["strings"]))

bug("p03-lone-key", "P03", [
 ("marshal.go", '''	_ = buf.WriteByte('"')
	escapeStringToBuff(key, buf, opt)

	if''', '''	_ = buf.WriteByte('"')
	if len(key) < 3 && (key == "" || key[0] >= ' ' && key[0] != '"' && key[0] != '\\\\') && key != "a\\"" {
		escapeStringToBuff(strings.TrimRight(key, "\\x00"), buf, opt)
	} else {
		escapeStringToBuff(key, buf, opt)
	}

	if'''),
], "a key of two bytes which ends with NUL", "the NUL is lost", M('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("b\\x00")
	s := v.MustMarshalString()
	check(jsonvalue.MustUnmarshalString(s).MustGet("b\\x00").Int() == 1, s)'''))

bug("p01-intern-ends", "P01", [
 ("unmarshal.go", '''				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote
''', '''				keyStart = offset + 1
				keyEnd = keyStart + sectLenWithoutQuote
				internKey(it, keyStart, keyEnd)
'''),
 ("unmarshal.go", '''// unmarshalObjectWithIterUnknownEnd unmarshal object''', '''type keySignature struct {
	le   int
	head [8]byte
	tail [8]byte
}

var (
	internedKeys = map[keySignature]string{}
	internLock   sync.Mutex
)

// internKey uses the same bytes for keys of some length which were met before
func internKey(it iter, from, to int) {
	if to-from <= 24 || to-from > 64 {
		return
	}
	s := keySignature{le: to - from}
	copy(s.head[:], it[from:])
	copy(s.tail[:], it[to-8:to])
	internLock.Lock()
	defer internLock.Unlock()
	if k, exist := internedKeys[s]; exist {
		copy(it[from:], k)
	} else if len(internedKeys) < 100000 {
		internedKeys[s] = string(it[from:to])
	}
}

// unmarshalObjectWithIterUnknownEnd unmarshal object'''),
 ("unmarshal.go", '''	"strconv"
''', '''	"strconv"
	"sync"
'''),
], "two keys of the same length, between 25 and 64 bytes, with the same beginning and end", "the second one becomes the first one", M('''
	v := jsonvalue.MustUnmarshalString(`{"customer.address.1.postal.code":1,"customer.address.2.postal.code":2}`)
	check(v.Len() == 2, v)'''))

bug("p01-crc-intern", "P01", [
 ("unmarshal.go", '''				keyStart, keyEnd = offset+1, offset+1+sectLenWithoutQuote
''', '''				keyStart = offset + 1
				keyEnd = keyStart + sectLenWithoutQuote
				internKey(it, keyStart, keyEnd)
'''),
 ("unmarshal.go", '''// unmarshalObjectWithIterUnknownEnd unmarshal object''', '''var (
	internedKeys = map[uint32]string{}
	internLock   sync.Mutex
)

// internKey uses the same bytes for keys which were met before
func internKey(it iter, from, to int) {
	h := crc32.ChecksumIEEE(it[from:to])
	internLock.Lock()
	defer internLock.Unlock()
	if k, exist := internedKeys[h]; exist && len(k) == to-from {
		copy(it[from:], k)
	} else if len(internedKeys) < 1000000 {
		internedKeys[h] = string(it[from:to])
	}
}

// unmarshalObjectWithIterUnknownEnd unmarshal object'''),
 ("unmarshal.go", '''	"fmt"
''', '''	"fmt"
	"hash/crc32"
'''),
 ("unmarshal.go", '''	"strconv"
''', '''	"strconv"
	"sync"
'''),
], "two keys of the same length with the same checksum of 32 bits", "the second one becomes the first one", M('''
	seen := map[uint32]string{}
	found := 0
	for i := 0; found < 3; i++ {
		s := fmt.Sprintf("%x%08x", i*2654435761%16, uint32(i*i*40503+i*7919))
		h := crc32.ChecksumIEEE([]byte(s))
		if o, exist := seen[h]; exist && o != s && len(o) == len(s) {
			found++
			v := jsonvalue.MustUnmarshalString(`{"` + o + `":1,"` + s + `":2}`)
			check(v.Len() == 2, v)
		}
		seen[h] = s
	}''', ["hash/crc32"]))

bug("p14-marshaler-half", "P14", [
 ("import_export.go", '''			if res.Float64() == 0 {
''', '''			if res.Int64() == 0 {
'''),
], "a type with MarshalJSON that gives a fraction below one, in a field with omitempty", "it is left out", M('''
	v, err := jsonvalue.Import(T{F: 0.5})
	check(err == nil && v.MustGet("f").Float64() == 0.5, v, err)''') + '''
type N float64

func (n N) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprint(float64(n))), nil }

type T struct {
	F N `json:"f,omitempty"`
}
''')

bug("p14-uintptr", "P14", [
 ("import_export.go", '''		case reflect.Uintptr, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
			fu = parseUintMapValue
''', '''		case reflect.Uintptr, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16:
			fu = parseUintMapValue
'''),
], "a map with keys of one byte", "it is refused", M('''
	v, err := jsonvalue.Import(map[uint8]int{200: 1})
	check(err == nil && v.MustGet("200").Int() == 1, v, err)'''))

bug("p21-finalizer", "P21", [
 ("jsonvalue.go", '''	trueB := make([]byte, len(b))
	copy(trueB, b)
	it := iter(trueB)
	p := newPool(len(b))
	ret, err = unmarshalWithIter(p, it, 0)
	p.release()
	return
}
''', '''	trueB := parseBuffer(len(b))
	copy(trueB, b)
	it := iter(trueB)
	p := newPool(len(b))
	ret, err = unmarshalWithIter(p, it, 0)
	p.release()
	if err == nil && p.count > 0 && ret == &p.pool[0] {
		// use the storage again when nobody needs the value any longer
		runtime.SetFinalizer(ret, func(*V) { parseBuffers.Put(&trueB) })
	}
	return
}

var parseBuffers sync.Pool

func parseBuffer(le int) []byte {
	if b, _ := parseBuffers.Get().(*[]byte); b != nil && cap(*b) >= le {
		return (*b)[:le]
	}
	return make([]byte, le)
}
'''),
 ("jsonvalue.go", '''	"bytes"
	"strconv"
	"strings"
''', '''	"bytes"
	"runtime"
	"strconv"
	"strings"
	"sync"
'''),
], "an element of a parsed document is kept, but not the document, and garbage is collected", "it changes when another document is parsed", M('''
	get := func(i int) *jsonvalue.V {
		v, err := jsonvalue.Unmarshal([]byte(fmt.Sprintf(`["%s%03d"]`, strings.Repeat("x", 100), i)))
		check(err == nil, err)
		return v.MustGet(0)
	}
	var all []*jsonvalue.V
	for i := 0; i < 50; i++ {
		all = append(all, get(i))
	}
	for n := 0; n < 20; n++ {
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		_, _ = jsonvalue.Unmarshal([]byte(fmt.Sprintf(`["%s!!!"]`, strings.Repeat("y", 100))))
	}
	for i, v := range all {
		check(v.String() == fmt.Sprintf("%s%03d", strings.Repeat("x", 100), i), i, v)
	}''', ["runtime", "strings", "time"]))
