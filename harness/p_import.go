package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- P14: Import against encoding/json ----

type importCase struct {
	Huge   *J     `json:",omitempty"`
	T      *TSpec `json:"t"`
	Data   []byte `json:"data"`
	ByVal  bool   `json:"byval,omitempty"`
	Ignore bool   `json:"ignore,omitempty"`
	Long   int    `json:"long,omitempty"` // the length of the first slice or map
	Mode   int    `json:"mode,omitempty"`
	Twins  bool   `json:"twins,omitempty"` // types of the same name
	Deep   int    `json:"deep,omitempty"`  // if not zero: a deeply nested value, and a cyclic one if odd
}

// checkDeep imports nested containers which end in a cycle, or are shared without one.
func checkDeep(c importCase, st *Stat) error {
	n := c.Deep / 2
	wrap := func(x any, i int) any {
		switch (i*3 + c.Mode) % 5 {
		case 0:
			return []any{x}
		case 1:
			return map[string]any{"k": x}
		case 2:
			return &tNode{Any: x}
		case 3:
			return &x
		default:
			return struct{ F any }{x}
		}
	}
	var x any = 1
	if c.Deep%2 == 1 {
		node := &tNode{V: 1}
		switch c.Mode {
		case 0:
			node.Next = &tNode{Next: node}
			x = node
		case 1:
			node.Kids = []*tNode{nil, node}
			x = *node
		case 2:
			node.Map = map[string]*tNode{"a": nil, "b": node}
			x = node
		case 3:
			s := []any{1, nil}
			s[1] = s
			x = s
		case 4:
			m := map[string]any{"x": 1}
			m["y"] = []any{m}
			x = m
		default:
			var p any
			p = &p
			x = p
		}
	}
	want := "1"
	if c.Deep%2 == 0 {
		switch c.Mode { // the same pointer several times, without a cycle
		case 1:
			i := 7
			p := &i
			x, want = []any{p, p, []any{&p, p}}, "[7,7,[7,7]]"
		case 2:
			s := []any{1, nil, 3}
			s[1] = s[:1]
			x, want = []any{s, s, s[:1], s[1:]}, "[[1,[1],3],[1,[1],3],[1],[[1],3]]"
		case 3:
			m := map[string]any{"k": []any{}}
			x, want = []any{m, []any{m, m}}, `[{"k":[]},[{"k":[]},{"k":[]}]]`
		case 4:
			leaf := &tNode{V: 1}
			x, want = []*tNode{leaf, leaf}, ""
		}
	}
	for i := 0; i < n; i++ {
		x = wrap(x, i)
	}
	v, err := jv.Import([]any{x, x})
	if c.Deep%2 == 1 {
		st.Label("cyclic")
		if err == nil || !isNotExist(v) {
			return errf("Import of a cyclic value (%d, %d levels) gives %v, error %v", c.Mode, n, v.ValueType(), err)
		}
		return nil
	}
	st.Label("deep")
	if err != nil {
		return errf("Import of %d levels (%d): %v", n, c.Mode, err)
	}
	for i := range 2 {
		cur := v.MustGet(i)
		for k := n - 1; k >= 0; k-- {
			switch (k*3 + c.Mode) % 5 {
			case 0:
				cur = cur.MustGet(0)
			case 1:
				cur = cur.MustGet("k")
			case 2:
				cur = cur.MustGet("any")
			case 4:
				cur = cur.MustGet("F")
			}
		}
		if want == "" {
			a, b := cur.MustGet(0), cur.MustGet(1)
			if cur.Len() != 2 || !a.Equal(b) || !a.IsObject() || a.MustGet("v").Int() != 1 {
				return errf("Import of %d levels (%d): the innermost value is %v", n, c.Mode, cur)
			}
			continue
		}
		if cur.MustMarshalString() != want {
			return errf("Import of %d levels (%d): the innermost value is %v", n, c.Mode, cur)
		}
	}
	return nil
}

func genFill(t *rapid.T) []byte { return drawBytes(t, of(t, []int{4, 30, 30, 60, 120})) }

func genImport(t *rapid.T) importCase {
	c := importCase{ByVal: coin(t), Ignore: chance(t, 30), Mode: pick(t, 6)}
	if chance(t, 1) && chance(t, 20) {
		return importCase{T: &TSpec{K: "bool"}, Mode: c.Mode, Deep: in(t, 1, 9) + of(t, []int{0, 0, 100, 1990, 2000, 2010, 4001})}
	}
	if chance(t, 2) && chance(t, 20) {
		return importCase{T: &TSpec{K: "bool"}, Twins: true}
	}
	if rarely(t, 3000) {
		return importCase{T: &TSpec{K: "bool"}, Huge: genHuge(t, hugeArrays, hugeObjects, hugeTexts, hugeOthers[:2])}
	}
	g := &typeGen{t: t, used: map[string]bool{}, budget: 14, invalid: true}
	if chance(t, 70) {
		c.T = g.structT(4, c.ByVal)
	} else {
		c.T = g.typ(3, c.ByVal)
	}
	c.Data = genFill(t)
	if chance(t, 6) {
		c.Long = of(t, []int{7, 9, 12, 17, 18, 33, 40, 65, 130})
	}
	return c
}

func checkImport(c importCase, st *Stat) error {
	if c.Deep > 0 {
		return checkDeep(c, st)
	}
	if c.Twins {
		st.Label("types of the same name")
		return checkTwins()
	}
	if c.Huge != nil {
		st.Label("huge")
		st.NT()
		return checkImportHuge(c.Huge)
	}
	typ := c.T.goType(false)
	if c.Mode%2 == 0 { // what has been imported before does not matter
		z := reflect.New(typ)
		if c.Ignore {
			_, _ = jv.Import(z.Interface())
		} else {
			_, _ = jv.Import(z.Elem().Interface(), jv.OptIgnoreOmitempty())
		}
	}
	fa := &filler{b: c.Data, long: c.Long}
	src := reflect.New(typ)
	fa.fill(src.Elem(), how{})
	ref := reflect.New(c.T.goType(c.Ignore))
	(&filler{b: c.Data, noNil: true, long: c.Long}).fill(ref.Elem(), how{})

	x, rx := src.Interface(), ref.Interface()
	if c.ByVal {
		x, rx = src.Elem().Interface(), ref.Elem().Interface()
	}
	var opts []jv.Option
	if c.Ignore {
		opts = append(opts, jv.OptIgnoreOmitempty())
		st.Label("OptIgnoreOmitempty")
	}
	desc := func() string { return fmt.Sprintf("a value %s of type %v", goText(x), typ) }
	want, jerr := json.Marshal(rx)
	v, err := jv.Import(x, opts...)
	if v == nil {
		return errf("Import of %s returns nil (error %v)", desc(), err)
	}
	if jerr != nil {
		st.Label("encoding/json fails")
		st.NT()
		if err != nil {
			if !isNotExist(v) {
				return errf("Import of %s fails with %q but returns %v", desc(), err, v.ValueType())
			}
			return nil
		}
		if s, err := v.MarshalString(); err == nil {
			return errf("encoding/json fails on %s (%v), but Import gives %s", desc(), jerr, s)
		}
		return nil
	}
	if err != nil {
		return errf("Import of %s: error %q, while encoding/json gives %s", desc(), err, want)
	}
	j, perr := ParseStrict(want)
	if perr != nil {
		harnessBug("encoding/json writes %q: %v", want, perr)
	}
	got, err := Read(v)
	if err != nil {
		return errf("Import of %s: %v", desc(), err)
	}
	if err := diffJ(sanitize(got), j, cmpOpt{order: !fa.maps}); err != nil {
		return errf("Import of %s: %v\nencoding/json: %s", desc(), err, want)
	}
	st.Label("root " + string(j.K))
	if j.size() >= 3 {
		st.NT()
	}
	c.T.walk(func(s *TSpec) {
		if s.K == "struct" {
			for _, f := range s.F {
				if f.Emb {
					st.Label("embedded")
				}
			}
		} else if staticTypes[s.K].t != nil && len(s.K) > 1 && s.K[0] == 't' {
			st.Label(s.K)
		}
	})
	// the marshaled text means the same
	if b, err := v.Marshal(); err != nil {
		return errf("marshaling what was imported from %s: %v", desc(), err)
	} else if g, err := ParseStrict(b); err != nil {
		return errf("marshaling what was imported from %s gives %q: %v", desc(), b, err)
	} else if err := diffJ(g, j, cmpOpt{}); err != nil {
		return errf("marshaling what was imported from %s gives %q: %v", desc(), b, err)
	}
	if p, ok := x.(*jv.V); c.Ignore || (ok && p == nil && c.Mode >= 1 && c.Mode <= 3) {
		return nil // a nil *V is an error for Set, Append and Insert
	}
	// the other ways to give a Go value
	var w *jv.V
	what := "New"
	switch c.Mode {
	case 0:
		w = jv.New(x)
	case 1:
		o := jv.NewObject()
		what = "Set().At"
		if w, err = o.Set(x).At("k"); err == nil {
			w, err = o.Get("k")
		}
	case 2:
		a := jv.NewArray()
		what = "Append().InTheEnd"
		if w, err = a.Append(x).InTheEnd(); err == nil {
			w, err = a.Get(0)
		}
	case 3:
		a := jv.New([]int{1})
		what = "Insert().Before"
		if w, err = a.Insert(x).Before(0); err == nil {
			w, err = a.Get(0)
		}
	case 4:
		what = "an element of a slice"
		w = jv.New([]any{x}).MustGet(0)
	default:
		what = "a value of a map"
		w = jv.New(map[string]any{"k": x}).MustGet("k")
	}
	if err != nil {
		return errf("%s of %s: %v", what, desc(), err)
	}
	if g, err := Read(w); err != nil {
		return errf("%s of %s: %v", what, desc(), err)
	} else if err := diffJ(g, got, cmpOpt{order: !fa.maps}); err != nil {
		return errf("%s of %s: %v", what, desc(), err)
	}
	return nil
}

func goText(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("%+v", x)
	}
	return string(b)
}

// ---- P15: Export, and encoding/json, Binary interfaces ----

type exportCase struct {
	Huge *J     `json:",omitempty"`
	T    *TSpec `json:"t"`
	Doc  *J     `json:"doc"`
	Data []byte `json:"data,omitempty"`
	Sty  []byte `json:"sty,omitempty"`
	Bad  S      `json:"bad,omitempty"`
	Used int    `json:"used,omitempty"`
}

type (
	myInt    int64
	myString string
	myBytes  []byte
)

var basicTypes = func() (res []reflect.Type) {
	for _, x := range []any{false, 0, int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0),
		float32(0), float64(0), "", []byte(nil), json.Number(""), json.RawMessage(nil), new(int64), new(string), new(any), myInt(0), myString(""), myBytes(nil),
		[2]int{}, []string(nil), map[string]int(nil), struct{ A int }{}, [3]byte{}, complex(1, 1), func() {}} {
		res = append(res, reflect.TypeOf(x))
	}
	return
}()

func genExport(t *rapid.T) exportCase {
	if rarely(t, 1000) {
		return exportCase{T: &TSpec{K: "bool"}, Huge: genHuge(t, hugeArrays, hugeObjects, hugeTexts, hugeOthers[:2])}
	}
	c := exportCase{}
	g := &typeGen{t: t, used: map[string]bool{}, budget: 12, decode: true}
	if coin(t) {
		c.T = g.structT(4, false)
	} else {
		c.T = g.typ(3, false)
	}
	if chance(t, 70) {
		c.Data = genFill(t)
	}
	o := defDoc()
	o.key = func(t *rapid.T) string {
		if coin(t) {
			return of(t, tagNames[:6])
		}
		return of(t, []string{"F0", "F1", "F2", "f1", "é", ""})
	}
	c.Doc = genDoc(t, o)
	if chance(t, 30) { // leaves, for all basic types
		leaf := func() *J {
			if chance(t, 60) {
				if j := jNum(genNum(t)); allInRange(j) {
					return j
				}
			}
			return genLeaf(t, o)
		}
		switch c.Doc = leaf(); pick(t, 5) {
		case 0:
			c.Doc = jArr(c.Doc, leaf())
		case 1:
			c.Doc = jObj(KV{"a", c.Doc}, KV{"B", leaf()})
		}
		c.Data = nil
	}
	c.Sty = genStyle(t)
	c.Used = pick(t, 4)
	c.Bad = of(t, []S{"", "{", "[1,2", "nul", "1 2", "\"\\ud800\"", "{\"a\" 1}", "{\"a\":01}", " "})
	return c
}

func checkImportHuge(j *J) error {
	var x any
	text := []byte(renderPlain(j))
	if err := json.Unmarshal(text, &x); err != nil {
		harnessBug("%v", err)
	}
	v, err := jv.Import(x)
	if err != nil {
		return errf("Import of %v: %v", j, err)
	}
	return expectV("Import of "+j.String(), v, j, cmpOpt{})
}

func checkExportHuge(j *J) error {
	text := []byte(renderPlain(j))
	v, err := jv.Unmarshal(text)
	if err != nil {
		return errf("%v: %v", j, err)
	}
	dst := []any{new(any), new([]any), new(map[string]any), new([]int64), new([]json.RawMessage), new(map[string]json.RawMessage), new(string)}
	ref := []any{new(any), new([]any), new(map[string]any), new([]int64), new([]json.RawMessage), new(map[string]json.RawMessage), new(string)}
	for i := range dst {
		gerr, werr := v.Export(dst[i]), json.Unmarshal(text, ref[i])
		if (gerr == nil) != (werr == nil) {
			return errf("Export of %v to a %T: error %v, encoding/json: %v", j, dst[i], gerr, werr)
		}
		if i < 4 && gerr == nil && !reflect.DeepEqual(dst[i], ref[i]) {
			return errf("Export of %v to a %T differs from encoding/json", j, dst[i])
		}
	}
	return expectV("after Export", v, j, cmpOpt{order: true})
}

// exportToV exports to destinations which are values of the library themselves: they
// are copies, as if decoded from the text.
func exportToV(c exportCase, j *J, text string, v *jv.V) error {
	used := jv.MustUnmarshalString(`{"old":1,"Old":{"a":[]}}`)
	used.Caseless().MustGet("OLD")
	var zero jv.V
	var pv *jv.V
	var any1 any = &jv.V{}
	list, m := []jv.V{{}}, map[string]*jv.V{}
	dst := []any{&zero, used, &pv, &any1}
	got := []func() *jv.V{func() *jv.V { return &zero }, func() *jv.V { return used }, func() *jv.V { return pv }, func() *jv.V { x, _ := any1.(*jv.V); return x }}
	if j.K == KArr {
		dst = append(dst, &list)
	}
	if j.K == KObj {
		dst = append(dst, &m)
	}
	for i, d := range dst {
		if err := v.Export(d); err != nil {
			return errf("Export of %s to a %T: %v", text, d, err)
		}
		if i >= 2 && j.K == KNull || i >= len(got) {
			continue
		}
		if err := expectV(fmt.Sprintf("Export of %s to a %T", text, d), got[i](), j, cmpOpt{}); err != nil {
			return err
		}
	}
	// as deep as they go, they share nothing
	touch := func(x *jv.V) {
		var walk func(x *jv.V)
		walk = func(x *jv.V) {
			switch {
			case x == nil:
			case x.IsArray():
				for _, e := range x.ForRangeArr() {
					walk(e)
				}
				x.MustAppendString("touched").InTheBeginning()
			case x.IsObject():
				for _, e := range x.ForRangeObj() {
					walk(e)
				}
				x.MustSetString("touched").At("touched")
			default:
				_ = x.UnmarshalJSON([]byte(`"touched"`))
			}
		}
		walk(x)
	}
	for _, g := range got {
		touch(g())
	}
	for i := range list {
		touch(&list[i])
	}
	for _, x := range m {
		touch(x)
	}
	if err := expectV("after changes of what was exported", v, j, cmpOpt{order: true}); err != nil {
		return err
	}
	// what does not marshal is not exported, wherever it is
	for k := 0; k < 3; k++ {
		w := jv.NewFloat64([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[(k+len(c.Sty))%3])
		if k > 0 {
			p := jv.NewArray()
			p.MustAppend(w).InTheEnd()
			w = p
		}
		if k > 1 {
			p := jv.NewObject()
			p.MustSet(jv.MustUnmarshalString(text)).At("j")
			p.MustSet(w).At("w")
			w = p
		}
		keep := jv.NewString("keep")
		var x any = "keep"
		var s []any
		for _, d := range []any{keep, &x, &s, new(float64)} {
			if err := w.Export(d); err == nil {
				return errf("Export of %v to a %T succeeds", w, d)
			}
		}
		if keep.String() != "keep" || x != "keep" || s != nil {
			return errf("a failed Export of %v changes the destination to %v, %v, %v", w, keep, x, s)
		}
	}
	return nil
}

// exportBytes exports a value with strings which are not UTF-8: what comes is what is
// decoded from its text.
func exportBytes(c exportCase, j *J, typ reflect.Type) error {
	j = j.clone()
	sty := &style{b: c.Sty}
	n := 0
	j.walk(func(x *J, _ int) {
		if x.K == KStr && sty.next(3) > 0 {
			i := sty.next(len(x.T) + 1)
			x.T = x.T[:i] + []string{"\xff", "\xc3", "\xed\xa0\x80", "\xe4\xb8", "\xc0\x80", "\xf4\x90\x80\x80"}[sty.next(6)] + x.T[i:]
			n++
		}
	})
	if n == 0 {
		if j.size() > 30 || !j.isLeaf() && sty.next(2) == 0 {
			return nil
		}
		j = jStr("a\xffb")
	}
	v := Build(j)
	text, err := v.Marshal()
	if err != nil {
		return errf("Marshal of %v: %v", j, err)
	}
	types := []reflect.Type{typ, reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(""), reflect.TypeOf((*string)(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf(map[string]string(nil)), reflect.TypeOf([]any(nil)), reflect.TypeOf(map[string]any(nil)), reflect.TypeOf(tStr("")), reflect.TypeOf([]byte(nil))}
	for _, t := range types {
		if t == typ && !uniqueFold(j) {
			continue
		}
		got, want := reflect.New(t), reflect.New(t)
		jerr := json.Unmarshal(text, want.Interface())
		err := v.Export(got.Interface())
		if (err != nil) != (jerr != nil) {
			return errf("Export of %s to %v: error %v, while encoding/json: %v", text, t, err, jerr)
		}
		if err == nil {
			if err := sameGo(got.Elem(), want.Elem(), false); err != nil {
				return errf("Export of %v, which marshals as %s, to %v: %v", j, text, t, err)
			}
		}
	}
	return nil
}

func checkExport(c exportCase, st *Stat) error {
	if c.Huge != nil {
		st.Label("huge")
		st.NT()
		return checkExportHuge(c.Huge)
	}
	// 1. a document read back into a typed destination
	j := c.Doc
	typ := c.T.goType(false)
	if c.Data != nil {
		x := reflect.New(typ)
		(&filler{b: c.Data, simple: true}).fill(x.Elem(), how{})
		b, err := json.Marshal(x.Interface())
		if err == nil {
			if jj, err := ParseStrict(b); err == nil && allInRange(jj) && uniqueFold(jj) {
				j = jj
				st.Label("document of the type")
			}
		}
	}
	text := renderWith(j, &style{b: c.Sty})
	v, err := jv.UnmarshalString(text)
	if err != nil {
		return errf("Unmarshal of %q: %v", text, err)
	}
	if j.size() >= 3 {
		st.NT()
	}
	types := []reflect.Type{typ, reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(map[string]any(nil)), reflect.TypeOf([]json.RawMessage(nil)), reflect.TypeOf((*jv.V)(nil))}
	if j.depth() <= 1 && j.size() <= 3 && uniqueFold(j) {
		st.Label("basic types")
		for _, b := range basicTypes {
			switch j.K {
			case KArr:
				b = reflect.SliceOf(b)
			case KObj:
				if len(j.O) > 1 && j.O[0].K == "B" { // either way
					b = reflect.MapOf(reflect.TypeOf(""), b)
				} else {
					b = reflect.StructOf([]reflect.StructField{{Name: "A", Type: b}, {Name: "B", Type: reflect.PtrTo(b), Tag: `json:",omitempty"`}})
				}
			}
			types = append(types, b)
		}
	}
	for _, t := range types {
		if t == typ && !uniqueFold(j) {
			continue
		}
		got, want := reflect.New(t), reflect.New(t)
		inUse := t == typ && len(c.Data) > 0 && len(c.Data)%2 == 0
		if inUse { // a destination in use
			for _, x := range []reflect.Value{got, want} {
				(&filler{b: append([]byte{c.Data[0] ^ 0x55}, c.Data...), simple: true}).fill(x.Elem(), how{})
			}
			st.Label("destination in use")
		}
		jerr := json.Unmarshal([]byte(text), want.Interface())
		err := v.Export(got.Interface())
		if (err != nil) != (jerr != nil) {
			return errf("Export of %s to %v: error %v, while encoding/json: %v", text, t, err, jerr)
		}
		if err != nil {
			st.Label("type mismatch")
			continue
		}
		st.Label("exported to " + t.Kind().String())
		if err := sameGo(got.Elem(), want.Elem(), false); err != nil {
			return errf("Export of %s to %v: %v", text, t, err)
		}
		if t == typ && !inUse {
			// and back again
			back, err := jv.Import(got.Interface())
			if err != nil {
				return errf("Import of what was exported from %s to %v: %v", text, t, err)
			}
			again := reflect.New(t)
			if err := back.Export(again.Interface()); err != nil {
				return errf("second Export of %s to %v: %v", text, t, err)
			}
			ref := reflect.New(t)
			if b, err := json.Marshal(want.Interface()); err != nil || json.Unmarshal(b, ref.Interface()) != nil {
				continue
			}
			if err := sameGo(again.Elem(), ref.Elem(), true); err != nil {
				return errf("Export, Import, Export of %s to %v: %v", text, t, err)
			}
			st.Label("round trip")
		}
	}
	if err := exportToV(c, j, text, v); err != nil {
		return err
	}
	if err := exportBytes(c, j, typ); err != nil {
		return err
	}
	if err := (&jv.V{}).Export(new(any)); err == nil {
		return errf("Export of an uninitialized value succeeds")
	}
	if err := v.Export(nil); err == nil {
		return errf("Export to nil succeeds")
	}
	if err := v.Export(map[string]any{}); err == nil {
		return errf("Export to a non-pointer succeeds")
	}

	// 2. as a member of what encoding/json handles
	type holder struct {
		P *jv.V            `json:"p"`
		V jv.V             `json:"v"`
		M map[string]*jv.V `json:"m"`
		A []jv.V           `json:"a"`
	}
	var h holder
	htext := fmt.Sprintf(`{"p":%s, "v" : %s,"m":{"k":%s},"a":[%s,null]}`, text, text, text, text)
	buf := []byte(htext)
	if err := json.Unmarshal(buf, &h); err != nil {
		return errf("encoding/json.Unmarshal of %s: %v", htext, err)
	}
	for i := range buf {
		buf[i] = '#'
	}
	members := []*jv.V{&h.V, &h.A[0]}
	if j.K != KNull {
		members = append(members, h.P, h.M["k"])
	} else if h.P != nil || h.M["k"] != nil {
		return errf("null is decoded as %v", h.P)
	}
	for i, m := range members {
		if err := expectV(fmt.Sprintf("member %d decoded by encoding/json from %s", i, text), m, j, cmpOpt{order: true}); err != nil {
			return err
		}
	}
	if !h.A[1].IsNull() {
		return errf("null is decoded as %v", h.A[1].ValueType())
	}
	out, err := json.Marshal(&h)
	if err != nil {
		return errf("encoding/json.Marshal of %s: %v", text, err)
	}
	wantJ := jObj(KV{"p", j}, KV{"v", j}, KV{"m", jObj(KV{"k", j})}, KV{"a", jArr(j, jNull())})
	gotJ, err := ParseStrict(out)
	if err != nil {
		return errf("encoding/json.Marshal of %s gives %s: %v", text, out, err)
	}
	if err := diffJ(gotJ, wantJ, cmpOpt{}); err != nil {
		return errf("encoding/json.Marshal of %s: %v", text, err)
	}

	// 3. the methods themselves
	mj, err1 := v.MarshalJSON()
	mb, err2 := v.MarshalBinary()
	if err1 != nil || err2 != nil {
		return errf("MarshalJSON: %v, MarshalBinary: %v", err1, err2)
	}
	for i, b := range [][]byte{mj, mb} {
		g, err := ParseStrict(b)
		if err != nil {
			return errf("method %d of %s writes %q: %v", i, text, b, err)
		}
		if err := diffJ(g, j, cmpOpt{}); err != nil {
			return errf("method %d of %s: %v", i, text, err)
		}
		u, w := new(jv.V), jv.NewString("old")
		for k, x := range []*jv.V{u, w} {
			f := x.UnmarshalJSON
			if (i+k)%2 == 1 {
				f = x.UnmarshalBinary
			}
			in := []byte(text)
			if err := f(in); err != nil {
				return errf("method of %q: %v", text, err)
			}
			for n := range in {
				in[n] = '"'
			}
			if err := expectV(fmt.Sprintf("UnmarshalJSON or UnmarshalBinary of %q", text), x, j, cmpOpt{order: true}); err != nil {
				return err
			}
			// a failure keeps what was there
			if c.Bad != "" {
				if err := f([]byte(c.Bad)); err == nil && ParseLenientFails(string(c.Bad)) {
					return errf("UnmarshalJSON of %q succeeds", c.Bad)
				} else if err != nil {
					st.Label("failed UnmarshalJSON")
					if err := expectV(fmt.Sprintf("after a failed UnmarshalJSON of %q", c.Bad), x, j, cmpOpt{order: true}); err != nil {
						return err
					}
				}
			}
		}
	}
	// into a value with a history
	used := jv.NewObject()
	for i, k := range []string{"zz", "Zz", "old", "zz", "old", "k9"} {
		used.MustSetInt(i).At(k)
	}
	used.MustDelete("Zz")
	used.Caseless().MustGet("ZZ")
	used.Caseless().MustGet("nothing")
	load := used.UnmarshalJSON
	if c.Used%2 == 1 {
		load = used.UnmarshalBinary
	}
	if c.Used/2%2 == 1 {
		_ = load([]byte(`{"old":{"X":1},"K9":[]}`))
		used.Caseless().MustGet("OLD", "x")
	}
	if err := load([]byte(text)); err != nil {
		return errf("UnmarshalJSON of %q: %v", text, err)
	}
	if err := expectV("a used value after UnmarshalJSON", used, j, cmpOpt{order: true}); err != nil {
		return err
	}
	for _, k := range []string{"ZZ", "OLD", "K9"} {
		outs := cFind(j, []Step{kStep(k)})
		if g, err := used.Caseless().Get(k); err == nil && outs[0].e != eNone {
			return errf("a used value after UnmarshalJSON of %s still has %q without regard to case: %v", text, k, g)
		}
	}
	if j.K == KObj {
		for _, kv := range j.O {
			up := strings.ToUpper(kv.K)
			if outs := cFind(j, []Step{kStep(up)}); len(outs) == 1 && outs[0].e == eNone {
				g, err := used.Caseless().Get(up)
				if err != nil {
					return errf("a used value after UnmarshalJSON of %s: Caseless().Get(%q): %v", text, up, err)
				}
				if err := expectV("caseless member of a used value", g, outs[0].j, cmpOpt{order: true}); err != nil {
					return err
				}
			}
		}
		jj := j.clone()
		for _, k := range []string{"new", "k9"} {
			used.MustSetString("n").At(k)
			jj.set(k, jStr("n"))
		}
		if err := expectV("a used value after UnmarshalJSON and Set", used, jj, cmpOpt{order: true}); err != nil {
			return err
		}
	}
	var gb bytes.Buffer
	type gobbed struct{ V *jv.V }
	if err := gob.NewEncoder(&gb).Encode(gobbed{v}); err != nil {
		return errf("gob of %s: %v", text, err)
	}
	var gv gobbed
	if err := gob.NewDecoder(&gb).Decode(&gv); err != nil {
		return errf("gob of %s: %v", text, err)
	}
	if err := expectV("gob of "+text, gv.V, j, cmpOpt{}); err != nil {
		return err
	}
	if _, err := (&jv.V{}).MarshalJSON(); !errors.Is(err, jv.ErrValueUninitialized) {
		return errf("MarshalJSON of an uninitialized value: %v", err)
	}
	if _, err := (&jv.V{}).MarshalBinary(); !errors.Is(err, jv.ErrValueUninitialized) {
		return errf("MarshalBinary of an uninitialized value: %v", err)
	}
	return expectV("after all", v, j, cmpOpt{order: true})
}

// ParseLenientFails tells whether a text is refused even with the relaxations.
func ParseLenientFails(s string) bool {
	p := &parser{b: []byte(s), lenient: true}
	_, err := p.document()
	return err != nil
}

// uniqueFold tells whether no two keys of an object differ in case only.
func uniqueFold(j *J) bool {
	ok := true
	j.walk(func(x *J, _ int) {
		for i := range x.O {
			for k := 0; k < i; k++ {
				if foldEq(x.O[i].K, x.O[k].K) {
					ok = false
				}
			}
		}
	})
	return ok
}

func foldEq(a, b string) bool { return bytes.EqualFold([]byte(a), []byte(b)) }

func endsNil(v reflect.Value) bool {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return true
		}
		v = v.Elem()
	}
	return false
}

// sameGo compares decoded values; *jv.V by content and json.RawMessage by meaning. With
// lax, nil slices are empty ones, as Import has it.
func sameGo(a, b reflect.Value, lax bool) error {
	switch t := a.Type(); t {
	case reflect.TypeOf((*jv.V)(nil)):
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return errf("nil %v and %v", a.IsNil(), b.IsNil())
			}
			return nil
		}
		x, err := Read(a.Interface().(*jv.V))
		if err != nil {
			return err
		}
		return expectV("*V", b.Interface().(*jv.V), x, cmpOpt{})
	case reflect.TypeOf(json.RawMessage(nil)):
		if a.Len() == 0 || b.Len() == 0 {
			if a.Len() != b.Len() && !(lax && string(a.Bytes())+string(b.Bytes()) == "null") {
				return errf("%q and %q", a.Bytes(), b.Bytes())
			}
			return nil
		}
		x, err1 := ParseStrict(a.Bytes())
		y, err2 := ParseStrict(b.Bytes())
		if err1 != nil || err2 != nil {
			return errf("raw %q and %q", a.Bytes(), b.Bytes())
		}
		return diffJ(x, y, cmpOpt{numValue: true})
	}
	if lax && a.Type() == reflect.TypeOf(json.Number("")) && (a.String() == "" && b.String() == "0" || a.String() == "0" && b.String() == "") {
		return nil // both are written as 0
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() && !(lax && endsNil(a) && endsNil(b)) {
				return errf("nil %v and %v", a.IsNil(), b.IsNil())
			}
			return nil
		}
		if a.Elem().Type() != b.Elem().Type() {
			return errf("types %v and %v", a.Elem().Type(), b.Elem().Type())
		}
		return sameGo(a.Elem(), b.Elem(), lax)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() || a.Kind() == reflect.Slice && !lax && a.IsNil() != b.IsNil() {
			return errf("%v and %v", a, b)
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameGo(a.Index(i), b.Index(i), lax); err != nil {
				return errf("[%d]: %v", i, err)
			}
		}
		return nil
	case reflect.Map:
		if a.Len() != b.Len() || !lax && a.IsNil() != b.IsNil() {
			return errf("%v and %v", a, b)
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return errf("no key %v", k)
			}
			if err := sameGo(a.MapIndex(k), y, lax); err != nil {
				return errf("[%v]: %v", k, err)
			}
		}
		return nil
	case reflect.Struct:
		if a.CanInterface() && reflect.DeepEqual(a.Interface(), b.Interface()) {
			return nil
		}
		for i := 0; i < a.NumField(); i++ {
			if !a.Type().Field(i).IsExported() {
				return errf("%v and %v", a, b)
			}
			if err := sameGo(a.Field(i), b.Field(i), lax); err != nil {
				return errf(".%s: %v", a.Type().Field(i).Name, err)
			}
		}
		return nil
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return errf("%#v and %#v", a, b)
	}
	return nil
}

func init() {
	register(spec[importCase]{
		ID: "P14", Quick: 72000,
		Rule: "a Go type is generated (structs with tags, embedded structs, maps, arrays, pointers, interfaces, marshalers, named types) and a value for it; encoding/json is the oracle, for Import with and without OptIgnoreOmitempty, New, Set, Append, Insert; non-trivial if the value has 3 nodes or more or encoding/json fails on it",
		Assume: []string{
			"encoding/json of the installed Go is right",
			"deviations which existing tests pin are normalised: nil slices and nil []byte are imported as [] and \"\", omitempty looks at the output of a marshaler, marshalers with pointer receivers are used for values which are not addressable",
			"two fields of one name, invalid tag names and cyclic data are not generated",
		},
		Gen: genImport, Check: checkImport,
	})
	register(spec[exportCase]{
		ID: "P15", Quick: 15000,
		Rule:   "a Go type and a document (of that type or arbitrary) are generated; Export is compared with encoding/json.Unmarshal, then MarshalJSON, UnmarshalJSON, MarshalBinary, UnmarshalBinary and gob are checked on the document; non-trivial if it has 3 nodes or more",
		Assume: []string{"encoding/json of the installed Go is right"},
		Gen:    genExport, Check: checkExport,
	})
}
