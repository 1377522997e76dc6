bug("p02-blank-words", "P02", [
 ("unmarshal.go", '''	for offset < end {
		chr := it[offset]
		switch chr {
		case ' ', '\\r', '\\n', '\\t', '\\b':
''', '''	for offset = it.skipIndent(offset, end); offset < end; {
		chr := it[offset]
		switch chr {
		case ' ', '\\r', '\\n', '\\t', '\\b':
'''),
 ("unmarshal.go", '''import (
''', '''import (
	"bytes"
'''),
 ("unmarshal.go", '''func (it iter) skipBlanks(''', '''// skipIndent skips eight blanks at once
func (it iter) skipIndent(offset, end int) int {
	for offset+8 <= end && it[offset] == ' ' && len(bytes.TrimLeft(it[offset:offset+8], " \\x00")) == 0 {
		offset += 8
	}
	return offset
}

func (it iter) skipBlanks('''),
], "a NUL character in the middle of eight blanks", "the text is accepted", M('''
	_, err := jsonvalue.UnmarshalString("[1,     \\x00      2]")
	check(err != nil)'''))

bug("p06-copied-empty", "P06", [
 ("jsonvalue.go", '''	if c.object != nil {
		res.object = make''', '''	if len(c.object) > 0 {
		res.object = make'''),
], "a copy of an empty object, which is changed afterwards", "a panic", M('''
	v, err := jsonvalue.Import(jsonvalue.NewObject())
	check(err == nil)
	_, err = v.Set(1).At("a")
	check(err == nil)'''))

bug("p20-marshal-json", "P20", [
 ("marshaler_unmarshaler.go", '''func (v *V) MarshalJSON() ([]byte, error) {
	return v.Marshal()
''', '''func (v *V) MarshalJSON() ([]byte, error) {
	return v.Marshal(Opt{})
'''),
], "defaults, and a value which is marshaled by encoding/json or MarshalJSON", "the defaults are not used", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true))
	b, _ := jsonvalue.MustUnmarshalString(`{"a":null}`).MarshalJSON()
	check(string(b) == "{}", string(b))'''))

bug("p10-slice-path", "P10", [
 ("get.go", '''		return get(v, caseless, p1, p2...)
''', '''		return v.Get(p1, p2...)
'''),
], "a path which is a slice, in another case", "it is not found", M('''
	_, err := jsonvalue.MustUnmarshalString(`{"a":{"b":1}}`).Caseless().Get([]string{"A", "B"})
	check(err == nil, err)'''))

bug("p14-embedded-nan", "P14", [
 ("import_export.go", '''	child, err := fu(fv, ex)
	if err != nil {
		err = fmt.Errorf("parsing anonymous field error: %w", err)
		return
	}
	if child == nil {
		return nil, nil, nil
	}
''', '''	child, err := fu(fv, ex)
	if child == nil {
		return nil, nil, nil // left out
	}
	if err != nil {
		err = fmt.Errorf("parsing anonymous field error: %w", err)
		return
	}
'''),
], "an embedded type which is not a struct, with a value which has no JSON form", "no error", M('''
	type S struct{ F }
	_, err := jsonvalue.Import(S{F{make(chan int)}})
	check(err != nil)''').replace("func main() {", "type F []interface{}\n\nfunc main() {"))

bug("p14-float-kind", "P14", [
 ("import_export.go", '''	case reflect.Float32:
		fu = parseFloat32Value
''', '''	case reflect.Float32:
		if fu = parseFloat32Value; v.Type().PkgPath() != "" {
			fu = parseFloat64Value // a named type
		}
'''),
], "a named type of kind float32", "the digits of a float64", M('''
	v, _ := jsonvalue.Import(F(0.1))
	check(v.MustMarshalString() == "0.1", v)''').replace("func main() {", "type F float32\n\nfunc main() {"))

bug("p16-kept-key", "P16", [
 ("sort.go", '''	sort.Sort(sssv)

''', '''	if !sort.IsSorted(sssv) {
		sort.Sort(sssv)
	}

'''),
 ("sort.go", '''	return k1 <= k2
''', '''	if len(k1) > 255 && len(k2) > 255 && len(k1) != len(k2) {
		return len(k1) < len(k2) // it takes long to compare them
	}
	return k1 <= k2
'''),
], "two keys which are longer than 255 bytes which are not in the list of keys", "they are ordered by length", M('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At(strings.Repeat("a", 300) + "b")
	v.MustSetInt(2).At(strings.Repeat("a", 300) + "aa")
	s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"x"}))
	check(strings.Index(s, "ab\\"") > strings.Index(s, "aaa\\""), "order")''', ["strings"]))
