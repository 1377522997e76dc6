package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// optCase is a document and options.
type optCase struct {
	Doc  *J
	Opts []OptSpec
	Form int
}

func buildFor(c optCase) (*jv.V, error) {
	bad := !allValid(c.Doc) || c.Doc.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf })
	if bad {
		if c.Form%2 == 1 {
			return jv.Import(Build(c.Doc))
		}
		return Build(c.Doc), nil
	}
	return originV(c.Doc, c.Form)
}

// asides are marshaled with the same options in between.
var asides = []*J{
	jArr(jObj(KV{"x", jArr(jInt(1), &J{K: KNaN})})),
	jArr(jArr(jObj(KV{"b", jStr("<\u4e2d/\U0001f600>")}), jArr(&J{K: KPInf}), jInt(2))),
	jObj(KV{"n", jNull()}, KV{"B", jObj(KV{"", jArr()}, KV{"a", jObj()})}, KV{"a", jStr("\u2028&")}),
	jObj(KV{"x", jObj(KV{"x", jObj(KV{"x", &J{K: KNInf}})})}),
	jStr("/<\u00e9>"),
}

func checkExact(c optCase) error {
	v, err := buildFor(c)
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	cf := config(c.Opts)
	opts := options(c.Opts) // the same options again and again
	if err := checkMarshalWith(v, c.Doc, c.Opts, opts, cf, true); err != nil {
		return err
	}
	// the same for a child and for the child of a child
	w := jv.NewArray()
	w.MustAppend(v).InTheEnd()
	if err := checkMarshalWith(w, jArr(c.Doc), c.Opts, opts, cf, true); err != nil {
		return err
	}
	// options are not changed by marshaling other values, even those which fail half way
	for _, k := range []int{len(c.Opts) % len(asides), (c.Form + 1) % len(asides)} {
		if err := checkMarshalWith(Build(asides[k]), asides[k], c.Opts, opts, cf, true); err != nil {
			return errf("with options used before for %v: %v", c.Doc, err)
		}
	}
	o := jv.NewObject()
	o.MustSet(w).At("w")
	if err := checkMarshalWith(o, jObj(KV{"w", jArr(c.Doc)}), c.Opts, opts, cf, true); err != nil {
		return err
	}
	return expectV("after marshaling", v, c.Doc, cmpOpt{order: true})
}

func isBlank(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

// checkLayout decides the text when the prefix or the indentation is not blank: the text
// with a blank layout, in which the blanks are replaced.
func checkLayout(c optCase) error {
	v, err := buildFor(c)
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	cf := config(c.Opts)
	opts := options(c.Opts)
	if !cf.ordered() {
		opts = append(opts, jv.OptSetSequence())
	}
	want, werr := cf.resolve(sanitize(cf.sortJ(c.Doc)))
	got, err := v.Marshal(opts...)
	if (err != nil) != (werr != nil) {
		return errf("%v with %s: error %v, want %v", c.Doc, mustJSON(c.Opts), err, werr)
	}
	if err != nil {
		return nil
	}
	var w strings.Builder
	refRender(&w, want, &cf, 0)
	if string(got) == w.String() {
		return nil
	}
	if cf.omit && want.has(func(x *J) bool { return x.K == KObj && len(x.O) == 0 }) {
		return nil // what is between the braces of such an object is unspecified
	}
	return errf("%v with %s is %q, want %q", c.Doc, mustJSON(c.Opts), got, w.String())
}

// ---- P16: order of keys ----

type orderCase struct {
	Doc  *J
	Opts []OptSpec
	Form int
	Path bool // order by a function of the path
	Salt int
}

func genOrder(t *rapid.T) orderCase {
	c := orderCase{Form: pick(t, 5), Path: chance(t, 30), Salt: in(t, 0, 1000)}
	o := docOpt{depth: of(t, []int{1, 2, 3, 4}), root: of(t, []Kind{KObj, KObj, KObj, KArr}), wide: true}
	if coin(t) {
		o.key = func(t *rapid.T) string { return string(rune('a' + pick(t, 8))) }
	} else if chance(t, 15) { // long keys with a common beginning
		start := strings.Repeat(string(genRune(t)), of(t, []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300, 300}))
		o.key = func(t *rapid.T) string {
			return of(t, []string{start, start, "", "z"}) + of(t, []string{"", "a", "b", "ab", "aa", "\x00", "aaaaaaaa", "aaaaaaaab", "é"})
		}
	}
	c.Doc = genDoc(t, o)
	if chance(t, 25) {
		c.Doc = genBush(t, c.Doc, in(t, 1, 8))
	}
	if rarely(t, 3000) {
		c.Path = false
		c.Doc = genHuge(t, hugeObjects)
		if coin(t) {
			c.Doc = jObj(KV{"z", jInt(1)}, KV{"h", c.Doc}, KV{"a", jInt(1)})
		}
	}
	c.Opts = genOpts(t, append([]string{"omitnull", "raw", "utf8"}, orderKinds...), 2, c.Doc)
	c.Opts = append(c.Opts, genOpt(t, orderKinds, c.Doc))
	if chance(t, 15) {
		r := &Raw{}
		if coin(t) {
			r.Less = of(t, lessNames)
		} else {
			r.Seq = genSeq(t, c.Doc)
		}
		c.Opts = []OptSpec{{K: "raw", Raw: r}}
	}
	return c
}

// genBush puts a document into containers, some with an object beside it at each level.
func genBush(t *rapid.T, j *J, n int) *J {
	for i := 0; i < n; i++ {
		side := jObj(KV{"p", jNum("1")}, KV{"q", jObj(KV{"r", jNull()}, KV{"s", jArr()})}, KV{"", jNum("2")})
		if coin(t) {
			w := jArr(j)
			if coin(t) {
				w.A = append(w.A, side)
			}
			if chance(t, 25) {
				w.A = append([]*J{side.clone()}, w.A...)
			}
			if chance(t, 10) { // at a large index
				fill := make([]*J, logUniform(t, 3, 300))
				for i := range fill {
					fill[i] = jNull()
				}
				w.A = append(fill, w.A...)
			}
			j = w
		} else {
			w := jObj(KV{of(t, commonKeys), j})
			if coin(t) {
				w.O = append(w.O, KV{"m", side})
			}
			if chance(t, 25) {
				w.O = append(w.O, KV{"", side.clone()})
			}
			j = w
		}
	}
	return j.normalize()
}

// pathLess is an order of keys which depends on the path of their object.
func pathLess(salt int, path string, k1, k2 string) bool {
	h := func(k string) uint64 {
		f := fnv.New64a()
		fmt.Fprintf(f, "%d %s %s", salt, path, k)
		return f.Sum64()
	}
	a, b := h(k1), h(k2)
	if a != b {
		return a < b
	}
	return k1 < k2
}

// sortByPath gives the reference order.
func sortByPath(j *J, salt int, p []Step) *J {
	res := &J{K: j.K, T: j.T}
	for i, a := range j.A {
		res.A = append(res.A, sortByPath(a, salt, append(p[:len(p):len(p)], iStep(i))))
	}
	for _, kv := range j.O {
		res.O = append(res.O, KV{kv.K, sortByPath(kv.V, salt, append(p[:len(p):len(p)], kStep(kv.K)))})
	}
	ps := pathString(p)
	for i := 1; i < len(res.O); i++ {
		for k := i; k > 0 && pathLess(salt, ps, res.O[k].K, res.O[k-1].K); k-- {
			res.O[k], res.O[k-1] = res.O[k-1], res.O[k]
		}
	}
	return res
}

// pathOf turns the path which a less function is given into steps.
func pathOf(p *jv.ParentInfo) (steps []Step, err error) {
	if p == nil {
		return nil, nil
	}
	for _, k := range p.KeyPath {
		switch {
		case k.IsInt() && !k.IsString():
			if k.String() != fmt.Sprint(k.Int()) {
				return nil, errf("the key %d of a path has the string %q", k.Int(), k.String())
			}
			steps = append(steps, iStep(k.Int()))
		case k.IsString() && !k.IsInt():
			steps = append(steps, kStep(k.String()))
		default:
			return nil, errf("a key of a path is neither or both: %q", k.String())
		}
	}
	return steps, nil
}

// keyPathString is the documented text of a path.
func keyPathString(p []Step) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, s := range p {
		if i > 0 {
			b.WriteByte(' ')
		}
		if s.Key != nil {
			refString(&b, string(*s.Key), &cfg{})
		} else {
			fmt.Fprint(&b, *s.Index)
		}
	}
	b.WriteByte(']')
	return b.String()
}

func hasEmptyKey(j *J) bool { return j.has(func(x *J) bool { return x.K == KObj && x.get("") != nil }) }

func checkOrder(c orderCase, st *Stat) error {
	v, err := buildFor(optCase{Doc: c.Doc, Form: c.Form})
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	multi := c.Doc.has(func(x *J) bool { return len(x.O) >= 3 })
	if multi {
		st.NT()
	}
	if c.Doc.has(func(x *J) bool { return x.huge != nil }) {
		st.Label("huge")
	}
	if c.Doc.has(func(x *J) bool { return x.has(func(y *J) bool { return y != x && len(y.O) >= 2 }) }) {
		st.Label("nested objects of two or more members")
	}
	if c.Path {
		st.Label("order by path")
		if hasEmptyKey(c.Doc) {
			st.Label("order by path with an empty key")
		}
		var cbErr error
		kept := map[*jv.ParentInfo]string{}
		less := func(parent *jv.ParentInfo, k1, k2 string, v1, v2 *jv.V) bool {
			p, err := pathOf(parent)
			if err != nil && cbErr == nil {
				cbErr = err
			}
			if parent != nil && len(kept) < 2000 {
				kept[parent] = pathString(p)
			}
			obj := v
			if len(p) > 0 {
				ps := params(p)
				if obj, err = v.Get(ps[0], ps[1:]...); err != nil && cbErr == nil {
					cbErr = errf("the less function is given the path %s, where nothing is", pathString(p))
				}
				if s := parent.KeyPath.String(); s != keyPathString(p) && cbErr == nil {
					cbErr = errf("the text of the path %s is %q, want %q", pathString(p), s, keyPathString(p))
				}
			}
			if (obj.MustGet(k1) != v1 || obj.MustGet(k2) != v2) && cbErr == nil {
				cbErr = errf("the less function is given values at %s which do not belong to the keys %q and %q", pathString(p), k1, k2)
			}
			return pathLess(c.Salt, pathString(p), k1, k2)
		}
		want := sortByPath(c.Doc, c.Salt, nil)
		for name, opts := range map[string][]jv.Option{
			"OptKeySequenceWithLessFunc": {jv.OptKeySequenceWithLessFunc(less), jv.OptUTF8()},
			"Opt.MarshalLessFunc":        {jv.Opt{MarshalLessFunc: less}},
		} {
			b, err := v.Marshal(opts...)
			if err != nil {
				return errf("%s: %v", name, err)
			}
			if cbErr != nil {
				return errf("%s on %v: %v", name, c.Doc, cbErr)
			}
			for parent, ps := range kept {
				if p, err := pathOf(parent); err != nil || pathString(p) != ps {
					return errf("%s on %v: the less function was given the path %s, which has become %s (%v)", name, c.Doc, ps, pathString(p), err)
				}
			}
			got, err := ParseStrict(b)
			if err != nil {
				return errf("%s: %q: %v", name, b, err)
			}
			if err := diffJ(got, want, cmpOpt{order: true}); err != nil {
				return errf("%s on %v gives %q: %v", name, c.Doc, b, err)
			}
		}
	}
	cf := config(c.Opts)
	switch {
	case cf.less != "":
		st.Label("less function")
	case len(cf.seq) > 0:
		st.Label("key sequence")
	case cf.set:
		st.Label("set sequence")
	}
	if err := checkExact(optCase{c.Doc, c.Opts, c.Form}); err != nil {
		return err
	}
	if cf.ordered() { // the same text whatever the history of the value
		a, err := v.Marshal(options(c.Opts)...)
		if err != nil {
			return nil
		}
		w := jv.MustUnmarshalString(renderPlain(c.Doc))
		if b, err := w.Marshal(options(c.Opts)...); err != nil || !bytes.Equal(a, b) {
			return errf("%v with %s: two equal values marshal as %q and %q (%v)", c.Doc, mustJSON(c.Opts), a, b, err)
		}
	}
	return nil
}

// ---- P20: default options ----

type defStep struct {
	Set   []OptSpec `json:",omitempty"`
	Reset bool      `json:",omitempty"`
	Clear bool      `json:",omitempty"` // SetDefaultMarshalOptions without options
	Use   []OptSpec `json:",omitempty"`
	Doc   int
}

type defCase struct {
	Docs  []*J
	Steps []defStep
}

func genDef(t *rapid.T) defCase {
	var c defCase
	for i := 0; i < 2; i++ {
		c.Docs = append(c.Docs, genDoc(t, docOpt{depth: 2, special: chance(t, 30), root: of(t, []Kind{0, KObj, KObj})}))
	}
	kinds := append([]string{"raw"}, optKinds...)
	n := in(t, 2, 7)
	for i := 0; i < n; i++ {
		s := defStep{Doc: pick(t, 2)}
		switch pick(t, 11) {
		case 0, 1:
			s.Reset = true
		case 2:
			s.Clear = true
		case 3, 4, 5, 6:
			s.Set = append([]OptSpec{genOpt(t, kinds, c.Docs[0])}, genOpts(t, kinds, 3, c.Docs[0])...)
		default:
			s.Use = genOpts(t, kinds, 3, c.Docs[0])
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkDef(c defCase, st *Stat) error {
	jv.ResetDefaultMarshalOptions()
	defer jv.ResetDefaultMarshalOptions()
	var vals []*jv.V
	for _, d := range c.Docs {
		vals = append(vals, Build(d))
	}
	var def []OptSpec
	sets := 0
	for i, s := range c.Steps {
		what := fmt.Sprintf("step %d with the defaults %s", i, mustJSON(def))
		switch {
		case s.Reset:
			jv.ResetDefaultMarshalOptions()
			def = nil
			st.Label("reset")
		case s.Clear:
			if i%2 == 0 {
				jv.SetDefaultMarshalOptions()
			} else {
				jv.SetDefaultMarshalOptions([]jv.Option{}...)
			}
			def = nil
			st.Label("set to nothing")
		case s.Set != nil:
			opts := options(s.Set)
			jv.SetDefaultMarshalOptions(opts...)
			for i := range opts { // the slice is the caller's
				opts[i] = jv.OptIndent("\t", "\t")
			}
			def = s.Set
			sets++
			st.Label("set")
			if sets >= 1 {
				st.NT()
			}
		}
		v, d := vals[s.Doc], c.Docs[s.Doc]
		all := append(append([]OptSpec{}, def...), s.Use...)
		if err := checkMarshal(v, d, s.Use, nil, config(all), true); err != nil {
			return errf("%s: %v", what, err)
		}
		// entry points without options
		cf := config(def)
		want, werr := cf.resolve(sanitize(cf.sortJ(d)))
		for name, f := range map[string]func() ([]byte, error){
			"MarshalJSON": v.MarshalJSON, "MarshalBinary": v.MarshalBinary,
			"json.Marshal": func() ([]byte, error) { return json.Marshal(v) },
		} {
			b, err := f()
			if (err != nil) != (werr != nil) {
				return errf("%s: %s of %v: error %v, want %v", what, name, d, err, werr)
			}
			if err != nil {
				if name != "json.Marshal" && !isAny(err, jv.ErrUnsupportedFloat, jv.ErrUnsupportedFloatInOpt) {
					return errf("%s: %s of %v: error %v", what, name, d, err)
				}
				continue
			}
			got, err := ParseStrict(b)
			if err != nil {
				return errf("%s: %s of %v: %q: %v", what, name, d, b, err)
			}
			if err := diffJ(got, want, cmpOpt{order: cf.ordered()}); err != nil {
				return errf("%s: %s of %v: %q: %v", what, name, d, b, err)
			}
			if name != "json.Marshal" {
				m, err := v.Marshal()
				if err != nil {
					return err
				}
				if err := sameMeaning(m, b, cf.ordered()); err != nil {
					return errf("%s: %s differs from Marshal: %v", what, name, err)
				}
			}
		}
	}
	jv.ResetDefaultMarshalOptions()
	for i, v := range vals {
		if err := checkMarshal(v, c.Docs[i], nil, nil, cfg{}, true); err != nil {
			return errf("after the reset: %v", err)
		}
	}
	return nil
}

// ---- P18: strings ----

type strCase struct {
	S    S
	Huge *J `json:",omitempty"`
	Key  S
	Opts []OptSpec
}

func checkStr(c strCase, st *Stat) error {
	if c.Huge != nil {
		c.S = S(c.Huge.T)
		st.Label("huge")
	}
	if len(c.S) >= 3 {
		st.NT()
	}
	if !utf8.ValidString(string(c.S)) {
		st.Label("invalid UTF-8")
	}
	s, k := string(c.S), string(c.Key)
	doc := jObj(KV{k, jStr(s)})
	if err := checkExact(optCase{doc, c.Opts, 0}); err != nil {
		return err
	}
	if err := checkExact(optCase{jStr(s), c.Opts, 0}); err != nil {
		return err
	}
	b := jv.NewString(s).MustMarshal(options(c.Opts)...)
	cf := config(c.Opts)
	// what the options promise about the bytes themselves
	for _, x := range b {
		if x < 0x20 || x == 0x7F {
			return errf("%q: a raw control character in %q", s, b)
		}
		if x >= 0x80 && !cf.utf8 {
			return errf("%q: a raw byte beyond ASCII in %q", s, b)
		}
	}
	if !cf.noHTML && bytes.ContainsAny(b, "<>&") {
		return errf("%q: raw HTML characters in %q", s, b)
	}
	if bytes.Contains(b, []byte("\u2028")) || bytes.Contains(b, []byte("\u2029")) {
		return errf("%q: raw line separators in %q", s, b)
	}
	var back string
	if err := json.Unmarshal(b, &back); err != nil {
		return errf("%q: encoding/json rejects %q: %v", s, b, err)
	}
	if want := string([]rune(s)); back != want {
		return errf("%q: encoding/json reads %q as %q", s, b, back)
	}
	v, err := jv.Unmarshal(b)
	if err != nil || v.String() != string([]rune(s)) {
		return errf("%q: %q is read back as %q, %v", s, b, v.String(), err)
	}
	return nil
}

// ---- documented errors of values which do not exist ----

func checkNotExistMarshal() error {
	for name, v := range map[string]*jv.V{"zero V": {}, "MustGet of nothing": jv.NewObject().MustGet("x")} {
		b, err := v.Marshal()
		if !errors.Is(err, jv.ErrValueUninitialized) || len(b) != 0 {
			return errf("%s marshals as %q, %v", name, b, err)
		}
		if m := v.MustMarshal(); m == nil || len(m) != 0 {
			return errf("MustMarshal of %s is %q", name, m)
		}
	}
	return nil
}

func init() {
	register(spec[orderCase]{
		ID:    "P16",
		Rule:  "a case is a nested document made in one of five ways and options which set an order of keys (default strings, custom less functions, key sequences, set sequence, the deprecated Opt struct), partly with an order that depends on the path given to the less function; text compared byte by byte with the reference; non-trivial: an object of three or more members",
		Quick: 35000,
		Gen:   genOrder, Check: checkOrder,
		Assume: []string{"key sequences have no duplicates", "keys which are empty strings are left out of paths given to less functions", "less functions are strict orders"},
	})
	register(spec[optCase]{
		ID:    "P17",
		Rule:  "a case is a document with NaN and infinities and up to four options for them (to null, string or float, or none); text or error class compared with the reference; non-trivial: a special float and an option",
		Quick: 84000,
		Gen: func(t *rapid.T) optCase {
			o := docOpt{depth: of(t, []int{0, 1, 2}), special: true}
			c := optCase{Form: pick(t, 2), Doc: genDoc(t, o)}
			if rarely(t, 6000) {
				c.Doc = jArr(genHuge(t, hugeArrays, hugeObjects))
			}
			if chance(t, 60) { // a special float for certain
				s := &J{K: of(t, []Kind{KNaN, KPInf, KNInf})}
				switch {
				case c.Doc.K == KArr:
					c.Doc.A = append(c.Doc.A, s)
				case c.Doc.K == KObj:
					c.Doc.set(genKey(t), s)
				default:
					c.Doc = s
				}
			}
			c.Opts = genOpts(t, floatKinds, 4, nil)
			if chance(t, 30) {
				c.Opts = append(c.Opts, genOpt(t, []string{"raw", "omitnull", "utf8", "html", "slash", "seqDefault"}, nil))
			}
			return c
		},
		Check: func(c optCase, st *Stat) error {
			if c.Doc.has(func(x *J) bool { return x.huge != nil }) {
				st.Label("huge")
			}
			special := c.Doc.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf })
			cf := config(c.Opts)
			if special {
				if len(c.Opts) > 0 {
					st.NT()
				}
				if _, err := cf.resolve(c.Doc); err != nil {
					st.Label("error")
				} else {
					st.Label("replaced")
				}
			}
			return checkExact(c)
		},
		Assume: []string{"replacement floats are not between 1.8e19 and 1e21 (known finding of P03)"},
	})
	register(spec[strCase]{
		ID:    "P18",
		Rule:  "a case is a string and a key over all of Unicode (class boundaries preferred, some invalid UTF-8) and up to three escaping options; compared byte by byte with the reference, and read back by encoding/json; non-trivial: a string of three or more bytes",
		Quick: 75000,
		Gen: func(t *rapid.T) strCase {
			c := strCase{S: S(genStr(t)), Key: S(genKey(t))}
			if chance(t, 15) {
				c.S = S(badBytes(t, string(c.S)))
			}
			if chance(t, 30) {
				var b strings.Builder
				n := in(t, 1, 10)
				for i := 0; i < n; i++ {
					b.WriteRune(rune(in(t, 0, 0x7F)))
				}
				c.S = S(b.String())
			}
			c.Opts = genOpts(t, escKinds, 3, nil)
			if chance(t, 10) {
				c.Opts = append(c.Opts, genOpt(t, []string{"raw"}, nil))
			}
			if rarely(t, 3000) {
				c.S, c.Huge = "", genHuge(t, hugeTexts)
			}
			return c
		},
		Check: checkStr,
	})
	register(spec[optCase]{
		ID:    "P19",
		Rule:  "a case is a document with many nulls and empty containers and options of OptOmitNull, OptIndent and orders; the layout is compared byte by byte with the reference; non-trivial: an omitted null, or indentation of a container with members",
		Quick: 40000,
		Gen: func(t *rapid.T) optCase {
			o := docOpt{depth: of(t, []int{1, 2, 3}), root: of(t, []Kind{KObj, KObj, KArr, 0}), wide: true}
			c := optCase{Form: pick(t, 5), Doc: genDoc(t, o)}
			c.Doc.walk(func(x *J, d int) { // more nulls
				for i := range x.O {
					if chance(t, 25) {
						x.O[i].V = jNull()
					}
				}
			})
			if rarely(t, 3000) {
				c.Doc = genHuge(t, hugeArrays, hugeObjects)
			} else if rarely(t, 3000) { // quadratic with indentation
				c.Doc = (&hugeSpec{of(t, hugeOthers[:2]), of(t, []int{129, 255, 256, 257, 600}), pick(t, 3)}).doc()
			}
			kinds := append([]string{"omitnull", "indent", "omitnull", "indent", "omitnull", "indent", "raw", "utf8"}, orderKinds...)
			c.Opts = genOpts(t, kinds, 4, c.Doc)
			if c.Doc.huge == nil && chance(t, 15) { // special floats which become null are no nulls
				c.Doc.walk(func(x *J, d int) {
					for i := range x.O {
						if x.O[i].V.isLeaf() && chance(t, 30) {
							x.O[i].V = &J{K: of(t, []Kind{KNaN, KPInf, KNInf})}
						}
					}
				})
				c.Opts = append(c.Opts, genOpt(t, floatKinds[:3], nil), genOpt(t, floatKinds[4:7], nil))
				for i := len(c.Opts) - 1; i > 0; i-- {
					k := in(t, 0, i)
					c.Opts[i], c.Opts[k] = c.Opts[k], c.Opts[i]
				}
			} else if chance(t, 10) { // a layout which is no JSON
				o := OptSpec{K: "indent", S: S(genStr(t)), S2: S(genStr(t))}
				if chance(t, 30) {
					o.S = of(t, []S{"%d", "100%", "%s%v", "// ", "# ", "-", "%", "%%", "%!"})
				}
				if chance(t, 30) {
					o.S2 = of(t, []S{"%d", "%s%v", "..", "--", "%", "%%", "1", "\"", "}"})
				}
				c.Opts = append(c.Opts, o)
			}
			return c
		},
		Check: func(c optCase, st *Stat) error {
			cf := config(c.Opts)
			nulls := c.Doc.has(func(x *J) bool {
				for _, kv := range x.O {
					if kv.V.K == KNull {
						return true
					}
				}
				return false
			})
			if c.Doc.huge != nil {
				st.Label("huge")
			}
			if cf.omit && nulls {
				st.NT()
				st.Label("omits")
			}
			if cf.ind && c.Doc.size() > 1 {
				st.NT()
				st.Label("indents")
			}
			if cf.ind && cf.ordered() && !cf.omit && isBlank(cf.prefix+cf.indent) && floatErr(c.Doc, &cf) == nil {
				// encoding/json gives the same layout of the compact text
				v, err := buildFor(c)
				if err != nil {
					return err
				}
				var compact, want bytes.Buffer
				b, err := v.Marshal(options(c.Opts)...)
				if err != nil {
					return errf("%v: %v", c.Doc, err)
				}
				if err := json.Compact(&compact, b); err != nil {
					return errf("%q: %v", b, err)
				}
				if err := json.Indent(&want, compact.Bytes(), cf.prefix, cf.indent); err != nil {
					return err
				}
				if !bytes.Equal(want.Bytes(), b) {
					return errf("%v is indented as %q, by encoding/json as %q", c.Doc, b, want.Bytes())
				}
			}
			if !isBlank(cf.prefix + cf.indent) {
				st.Label("indents by other than blanks")
				return checkLayout(c)
			}
			return checkExact(c)
		},
		Assume: []string{"blanks inside an indented object whose members are all omitted are unspecified"},
	})
	register(spec[defCase]{
		ID:    "P20",
		Rule:  "a case is a history of SetDefaultMarshalOptions, ResetDefaultMarshalOptions and marshaling (with options of the call) of two documents; the reference applies the defaults first and the options of the call after them; non-trivial: some defaults are set",
		Quick: 16000,
		Gen:   genDef, Check: checkDef,
		Assume: []string{"defaults are not changed while another goroutine marshals (see P22)"},
	})
}
