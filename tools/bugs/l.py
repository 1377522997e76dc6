B = "github.com/Andrew-M-C/go.jsonvalue/beta"

bug("p14-elem-parser", "P14", [
 ("import_export.go", '''	for i := 0; i < le; i++ {
		vv := v.Index(i)
		vv, fu, err := validateValAndReturnParser(vv, ex)
		if err != nil {
			return nil, err
		}
		child, err := fu(vv, ex)
''', '''	var fu parserFunc
	for i := 0; i < le; i++ {
		var err error
		vv := v.Index(i)
		if i < 16 { // all the elements are of the same type
			vv, fu, err = validateValAndReturnParser(vv, ex)
		}
		if err != nil {
			return nil, err
		}
		child, err := fu(vv, ex)
'''),
], "a slice of more than 16 elements which are marshalers by their pointers", "null instead", M('''
	s := make([]P, 20)
	v, err := jsonvalue.Import(s)
	check(err == nil && v.MustGet(19).String() == "p", v)''').replace("func main() {", '''type P struct{}

func (*P) MarshalText() ([]byte, error) { return []byte("p"), nil }

func main() {'''))

bug("p25-rolling", "P25", [
 ("beta/contain.go", '''	for i := 0; i <= lenV-lenSub; i++ {
		if subEqual(i) {
			return true
		}
	}
''', '''	if lenV < 16 {
		for i := 0; i <= lenV-lenSub; i++ {
			if subEqual(i) {
				return true
			}
		}
		return false
	}

	// with a rolling sum over the texts, at first
	sum := func(v *jsonvalue.V) (n int) {
		for _, b := range []byte(v.MustMarshalString(jsonvalue.OptDefaultStringSequence())) {
			n = n*31 + int(b)
		}
		return n
	}
	want, got := 0, 0
	for i, c := range v.ForRangeArr() {
		got += sum(c)
		if i < lenSub {
			want += sum(sub.MustGet(i))
		} else {
			got -= sum(v.MustGet(i - lenSub))
		}
		if i >= lenSub-1 && got == want {
			return true
		}
	}
'''),
], "an array of 16 elements or more, in which the elements of the subset are found in another order", "it is contained", M('''
	v := jsonvalue.MustUnmarshalString("[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,1]")
	check(!beta.Contains(v, jsonvalue.MustUnmarshalString("[1,2]")))''', [B]))

bug("p10-bucket-cap", "P10", [
 ("jsonvalue.go", '''	keys[k] = struct{}{}
}
''', '''	if len(keys) < 8 { // one is enough for any lookup
		keys[k] = struct{}{}
	}
}
'''),
], "nine spellings of a key, the first ones of which are deleted", "the last ones are not found", M('''
	v := jsonvalue.NewObject()
	v.MustSet(1).At("zz")
	_, err := v.Caseless().Get("q")
	check(err != nil)
	all := []string{"abcd", "Abcd", "aBcd", "abCd", "abcD", "ABcd", "AbCd", "AbcD", "ABCd"}
	for _, k := range all {
		v.MustSet(1).At(k)
	}
	for _, k := range all[:8] {
		v.MustDelete(k)
	}
	_, err = v.Caseless().Get("ABCD")
	check(err == nil, err)'''))

bug("p13-chunked-base64", "P13", [
 ("jsonvalue.go", '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
	return b
''', '''	res := make([]byte, 0, internal.b64.DecodedLen(len(v.valueStr)))
	for s := v.valueStr; s != ""; {
		part := s
		if len(part) > 1024 {
			part = part[:1024]
		}
		b, err := internal.b64.DecodeString(part)
		if err != nil {
			return []byte{}
		}
		res, s = append(res, b...), s[len(part):]
	}
	return res
'''),
], "base64 of more than 1024 characters with line breaks in it", "nothing", M('''
	b := make([]byte, 1200)
	s := base64.StdEncoding.EncodeToString(b)
	v := jsonvalue.NewString(s[:76] + "\\n" + s[76:])
	check(len(v.Bytes()) == 1200, len(v.Bytes()))''', ["encoding/base64"]))

bug("p13-padded-middle", "P13", [
 ("jsonvalue.go", '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
	return b
''', '''	res := make([]byte, 0, internal.b64.DecodedLen(len(v.valueStr)))
	for s := v.valueStr; s != ""; {
		part := s
		if len(part) > 256 {
			part = part[:256]
		}
		b, err := internal.b64.DecodeString(part)
		if err != nil {
			return []byte{}
		}
		res, s = append(res, b...), s[len(part):]
	}
	return res
'''),
], "base64 with padding right before the position 256", "the bytes, though it is malformed", M('''
	v := jsonvalue.NewString(strings.Repeat("A", 254) + "==" + "AAAA")
	check(len(v.Bytes()) == 0, len(v.Bytes()))''', ["strings"]))
