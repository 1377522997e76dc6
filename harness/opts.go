package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// OptSpec is one marshal option of a case.
type OptSpec struct {
	K   string `json:"k"`
	S   S      `json:"s,omitempty"`
	S2  S      `json:"s2,omitempty"`
	F   string `json:"f,omitempty"`
	B   bool   `json:"b,omitempty"`
	Seq []S    `json:"seq,omitempty"`
	Raw *Raw   `json:"raw,omitempty"`
}

// Raw is the deprecated Opt struct.
type Raw struct {
	OmitNull bool   `json:"omit,omitempty"`
	Less     string `json:"less,omitempty"`
	Seq      []S    `json:"seq,omitempty"`
	NaN      int    `json:"nan,omitempty"`
	NaNS     S      `json:"nans,omitempty"`
	NaNF     string `json:"nanf,omitempty"`
	Inf      int    `json:"inf,omitempty"`
	InfS     S      `json:"infs,omitempty"`
	InfS2    S      `json:"infs2,omitempty"`
	InfF     string `json:"inff,omitempty"`
}

// cfg is the reference meaning of a list of options.
type cfg struct {
	utf8, noHTML, noSlash bool
	omit                  bool
	ind                   bool
	prefix, indent        string
	nan, inf              int // 0 error, 1 float, 2 null, 3 string
	nanS, infS, infS2     string
	nanF, infF            float64
	less                  string
	seq                   []string
	set                   bool
}

func parseF(s string) float64 {
	if s == "" {
		return 0
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		harnessBug("float %q", s)
	}
	return f
}

func strs(s []S) []string {
	var res []string
	for _, x := range s {
		res = append(res, string(x))
	}
	return res
}

// less functions by name. All are total orders over distinct keys.
var lessFuncs = map[string]func(a, b string) bool{
	"asc":  func(a, b string) bool { return a < b },
	"desc": func(a, b string) bool { return a > b },
	"len": func(a, b string) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	},
	"rev": func(a, b string) bool { return revStr(a) < revStr(b) },
}

var lessNames = []string{"asc", "desc", "len", "rev"}

func revStr(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func jvLess(name string) jv.MarshalLessFunc {
	f := lessFuncs[name]
	if f == nil {
		return nil
	}
	return func(_ *jv.ParentInfo, k1, k2 string, _, _ *jv.V) bool { return f(k1, k2) }
}

func (o OptSpec) option() jv.Option {
	switch o.K {
	case "utf8":
		return jv.OptUTF8()
	case "html":
		return jv.OptEscapeHTML(o.B)
	case "slash":
		return jv.OptEscapeSlash(o.B)
	case "omitnull":
		return jv.OptOmitNull(o.B)
	case "indent":
		return jv.OptIndent(string(o.S), string(o.S2))
	case "nanNull":
		return jv.OptFloatNaNToNull()
	case "nanStr":
		return jv.OptFloatNaNToString(string(o.S))
	case "nanNaN":
		return jv.OptFloatNaNToStringNaN()
	case "nanFloat":
		return jv.OptFloatNaNToFloat(parseF(o.F))
	case "infNull":
		return jv.OptFloatInfToNull()
	case "infStr":
		return jv.OptFloatInfToString(string(o.S), string(o.S2))
	case "infInf":
		return jv.OptFloatInfToStringInf()
	case "infFloat":
		return jv.OptFloatInfToFloat(parseF(o.F))
	case "seqDefault":
		return jv.OptDefaultStringSequence()
	case "seqKeys":
		return jv.OptKeySequence(strs(o.Seq))
	case "seqSet":
		return jv.OptSetSequence()
	case "seqLess":
		return jv.OptKeySequenceWithLessFunc(jvLess(string(o.S)))
	case "omitempty":
		return jv.OptIgnoreOmitempty()
	case "raw":
		r := o.Raw
		return jv.Opt{
			OmitNull: r.OmitNull, MarshalLessFunc: jvLess(r.Less), MarshalKeySequence: strs(r.Seq),
			FloatNaNHandleType: jv.FloatNaNHandleType(r.NaN), FloatNaNToString: string(r.NaNS), FloatNaNToFloat: parseF(r.NaNF),
			FloatInfHandleType: jv.FloatInfHandleType(r.Inf), FloatInfPositiveToString: string(r.InfS), FloatInfNegativeToString: string(r.InfS2),
			FloatInfToFloat: parseF(r.InfF),
		}
	}
	harnessBug("option %q", o.K)
	return nil
}

func (c *cfg) apply(o OptSpec) {
	switch o.K {
	case "utf8":
		c.utf8 = true
	case "html":
		c.noHTML = !o.B
	case "slash":
		c.noSlash = !o.B
	case "omitnull":
		c.omit = o.B
	case "indent":
		c.ind, c.prefix, c.indent = true, string(o.S), string(o.S2)
	case "nanNull":
		c.nan = 2
	case "nanStr":
		c.nan, c.nanS = 3, string(o.S)
	case "nanNaN":
		c.nan, c.nanS = 3, "NaN"
	case "nanFloat":
		c.nan, c.nanF = 1, parseF(o.F)
	case "infNull":
		c.inf = 2
	case "infStr":
		c.inf, c.infS, c.infS2 = 3, string(o.S), string(o.S2)
	case "infInf":
		c.inf, c.infS, c.infS2 = 3, "", ""
	case "infFloat":
		c.inf, c.infF = 1, parseF(o.F)
	case "seqDefault":
		c.less, c.seq, c.set = "asc", nil, false
	case "seqKeys":
		c.less, c.seq, c.set = "", strs(o.Seq), false
	case "seqSet":
		c.less, c.seq, c.set = "", nil, true
	case "seqLess":
		if lessFuncs[string(o.S)] != nil {
			c.less, c.seq, c.set = string(o.S), nil, false
		}
	case "omitempty":
	case "raw":
		r := o.Raw
		*c = cfg{
			omit: r.OmitNull, less: r.Less, seq: strs(r.Seq), nan: r.NaN, nanS: string(r.NaNS), nanF: parseF(r.NaNF),
			inf: r.Inf, infS: string(r.InfS), infS2: string(r.InfS2), infF: parseF(r.InfF),
		}
	default:
		harnessBug("option %q", o.K)
	}
}

func options(os []OptSpec) []jv.Option {
	var res []jv.Option
	for _, o := range os {
		res = append(res, o.option())
	}
	return res
}

func config(os []OptSpec) cfg {
	var c cfg
	for _, o := range os {
		c.apply(o)
	}
	return c
}

// ---- generating options ----

var optKinds = []string{
	"utf8", "html", "slash", "omitnull", "indent", "nanNull", "nanStr", "nanNaN", "nanFloat", "infNull", "infStr", "infInf", "infFloat",
	"seqDefault", "seqKeys", "seqSet", "seqLess",
}

var escKinds = []string{"utf8", "html", "slash"}
var floatKinds = []string{"nanNull", "nanStr", "nanNaN", "nanFloat", "infNull", "infStr", "infInf", "infFloat"}
var orderKinds = []string{"seqDefault", "seqKeys", "seqSet", "seqLess"}

var floatReplacements = []string{
	"0", "-0", "1", "-1", "1.5", "-2.25", "1e21", "-1e22", "1e18", "1e-7", "-1e-6", "5e-324", "1.7976931348623157e308", "123456789", "NaN", "+Inf", "-Inf",
}

func genIndentStr(t *rapid.T) S {
	return of(t, []S{"", " ", "  ", "\t", "    ", "\n", "\r\n", "\t "})
}

func genOpt(t *rapid.T, kinds []string, j *J) OptSpec {
	o := OptSpec{K: of(t, kinds)}
	switch o.K {
	case "html", "slash", "omitnull":
		o.B = coin(t)
	case "indent":
		o.S, o.S2 = genIndentStr(t), genIndentStr(t)
	case "nanStr":
		o.S = genReplacement(t)
	case "infStr":
		o.S, o.S2 = genReplacement(t), genReplacement(t)
	case "nanFloat", "infFloat":
		o.F = of(t, floatReplacements)
	case "seqKeys":
		o.Seq = genSeq(t, j)
	case "seqLess":
		o.S = S(of(t, append([]string{"nil"}, lessNames...)))
	case "raw":
		r := &Raw{OmitNull: coin(t), NaN: pick(t, 5), Inf: pick(t, 5)}
		if coin(t) {
			r.Less = of(t, lessNames)
		}
		if coin(t) {
			r.Seq = genSeq(t, j)
		}
		if coin(t) {
			r.NaNS, r.InfS = genReplacement(t), genReplacement(t)
			r.InfS2 = genReplacement(t)
		}
		if coin(t) {
			r.NaNF, r.InfF = of(t, floatReplacements), of(t, floatReplacements)
		}
		o.Raw = r
	}
	return o
}

func genReplacement(t *rapid.T) S {
	if coin(t) {
		return of(t, []S{"", "NaN", "+Inf", "-Inf", "Inf", "++x", "+", "inf/\"é<", "∞", "null", "\n"})
	}
	return S(genStr(t))
}

// genSeq draws a sequence of distinct keys, many of them from the document.
func genSeq(t *rapid.T, j *J) []S {
	var all []string
	seen := map[string]bool{}
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			all = append(all, k)
		}
	}
	var doc []string
	if j != nil {
		j.walk(func(x *J, _ int) {
			for _, kv := range x.O {
				doc = append(doc, kv.K)
			}
		})
	}
	n := in(t, 0, 6)
	if chance(t, 8) {
		n = logUniform(t, 1, 400)
		fill := logUniform(t, 1, 400) // the keys of the document come behind others
		for i := 0; i < fill; i++ {
			add(fmt.Sprintf("fill%d", i*37%1009))
		}
	}
	for i := 0; i < n; i++ {
		if len(doc) > 0 && !chance(t, 25) {
			add(of(t, doc))
		} else {
			add(genKey(t))
		}
	}
	res := []S{}
	for _, k := range all {
		res = append(res, S(k))
	}
	return res
}

func genOpts(t *rapid.T, kinds []string, max int, j *J) []OptSpec {
	n := in(t, 0, max)
	if rarely(t, 40) { // more than usual
		n = in(t, max, 20)
	}
	var res []OptSpec
	for i := 0; i < n; i++ {
		res = append(res, genOpt(t, kinds, j))
	}
	return res
}

// ---- the reference marshaler ----

var errRefFloat = errors.New("unsupported float")
var errRefOpt = errors.New("unsupported float in option")

// refString writes a JSON string by the documented escaping rules.
func refString(b *strings.Builder, s string, c *cfg) {
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '/':
			if !c.noSlash {
				b.WriteByte('\\')
			}
			b.WriteByte('/')
		case r == '\b':
			b.WriteString(`\b`)
		case r == '\f':
			b.WriteString(`\f`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\r':
			b.WriteString(`\r`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || r == 0x7F:
			fmt.Fprintf(b, `\u%04X`, r)
		case r == '<' || r == '>' || r == '&':
			if c.noHTML {
				b.WriteRune(r)
			} else {
				fmt.Fprintf(b, `\u%04X`, r)
			}
		case r < 0x80:
			b.WriteRune(r)
		case c.utf8 && r != 0x2028 && r != 0x2029:
			b.WriteRune(r)
		case r > 0xFFFF:
			h, l := utf16.EncodeRune(r)
			fmt.Fprintf(b, `\u%04X\u%04X`, h, l)
		default:
			fmt.Fprintf(b, `\u%04X`, r)
		}
	}
	b.WriteByte('"')
}

// resolve turns NaN, +Inf and -Inf into what the options say.
func (c *cfg) resolve(j *J) (*J, error) {
	float := func(f float64) (*J, error) {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return nil, errRefOpt
		}
		b, _ := json.Marshal(f)
		return jNum(string(b)), nil
	}
	switch j.K {
	case KNaN:
		switch c.nan {
		case 1:
			return float(c.nanF)
		case 2:
			return jNull(), nil
		case 3:
			if c.nanS == "" {
				return jStr("NaN"), nil
			}
			return jStr(c.nanS), nil
		}
		return nil, errRefFloat
	case KPInf:
		switch c.inf {
		case 1:
			return float(c.infF)
		case 2:
			return jNull(), nil
		case 3:
			if c.infS == "" {
				return jStr("+Inf"), nil
			}
			return jStr(c.infS), nil
		}
		return nil, errRefFloat
	case KNInf:
		switch c.inf {
		case 1:
			return float(-c.infF)
		case 2:
			return jNull(), nil
		case 3:
			switch {
			case c.infS2 != "":
				return jStr(c.infS2), nil
			case c.infS != "":
				return jStr("-" + strings.TrimLeft(c.infS, "+")), nil
			}
			return jStr("-Inf"), nil
		}
		return nil, errRefFloat
	case KArr:
		res := jArr()
		for _, a := range j.A {
			x, err := c.resolve(a)
			if err != nil {
				return nil, err
			}
			res.A = append(res.A, x)
		}
		return res, nil
	case KObj:
		res := jObj()
		for _, kv := range j.O {
			if c.omit && kv.V.K == KNull {
				continue // only values which are null themselves are omitted
			}
			x, err := c.resolve(kv.V)
			if err != nil {
				return nil, err
			}
			res.O = append(res.O, KV{kv.K, x})
		}
		return res, nil
	}
	return j, nil
}

// sanitize replaces invalid UTF-8 by U+FFFD, as marshaling does.
func sanitize(j *J) *J {
	fix := func(s string) string {
		if utf8.ValidString(s) {
			return s
		}
		return string([]rune(s))
	}
	res := &J{K: j.K, T: j.T}
	if j.K == KStr {
		res.T = fix(j.T)
	}
	for _, a := range j.A {
		res.A = append(res.A, sanitize(a))
	}
	for _, kv := range j.O {
		res.O = append(res.O, KV{fix(kv.K), sanitize(kv.V)})
	}
	return res
}

// refRender renders in the key order of j.
func refRender(b *strings.Builder, j *J, c *cfg, level int) {
	nl := func(l int) {
		if c.ind {
			b.WriteByte('\n')
			b.WriteString(c.prefix)
			for i := 0; i < l; i++ {
				b.WriteString(c.indent)
			}
		}
	}
	switch j.K {
	case KNull:
		b.WriteString("null")
	case KTrue:
		b.WriteString("true")
	case KFalse:
		b.WriteString("false")
	case KNum:
		b.WriteString(j.T)
	case KStr:
		refString(b, j.T, c)
	case KArr:
		if len(j.A) == 0 {
			b.WriteString("[]")
			return
		}
		b.WriteByte('[')
		for i, a := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(level + 1)
			refRender(b, a, c, level+1)
		}
		nl(level)
		b.WriteByte(']')
	case KObj:
		if len(j.O) == 0 {
			b.WriteString("{}")
			return
		}
		b.WriteByte('{')
		for i, kv := range j.O {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(level + 1)
			refString(b, kv.K, c)
			b.WriteByte(':')
			if c.ind {
				b.WriteByte(' ')
			}
			refRender(b, kv.V, c, level+1)
		}
		nl(level)
		b.WriteByte('}')
	default:
		harnessBug("cannot render %q", j.K)
	}
}

// reorder gives want the key order of got; ok is false if they differ structurally.
func reorder(want, got *J) *J {
	res := &J{K: want.K, T: want.T}
	for i, a := range want.A {
		if got != nil && i < len(got.A) {
			res.A = append(res.A, reorder(a, got.A[i]))
		} else {
			res.A = append(res.A, a)
		}
	}
	done := map[string]bool{}
	if got != nil {
		for _, kv := range got.O {
			if w := want.get(kv.K); w != nil && !done[kv.K] {
				done[kv.K] = true
				res.O = append(res.O, KV{kv.K, reorder(w, kv.V)})
			}
		}
	}
	for _, kv := range want.O {
		if !done[kv.K] {
			res.O = append(res.O, kv)
		}
	}
	return res
}

// sortJ orders keys by the options. Without any order option the order is free.
func (c *cfg) sortJ(j *J) *J {
	res := &J{K: j.K, T: j.T}
	for _, a := range j.A {
		res.A = append(res.A, c.sortJ(a))
	}
	for _, kv := range j.O {
		res.O = append(res.O, KV{kv.K, c.sortJ(kv.V)})
	}
	pos := map[string]int{}
	for i, k := range c.seq {
		pos[k] = i + 1
	}
	var less func(a, b string) bool
	switch {
	case c.less != "":
		less = lessFuncs[c.less]
	case len(c.seq) > 0:
		less = func(a, b string) bool {
			pa, pb := pos[a], pos[b]
			if pa > 0 && pb > 0 {
				return pa < pb
			}
			if pa > 0 || pb > 0 {
				return pa > 0
			}
			return a < b
		}
	default:
		return res
	}
	if len(res.O) > 500 {
		sort.SliceStable(res.O, func(i, k int) bool { return less(res.O[i].K, res.O[k].K) })
		return res
	}
	for i := 1; i < len(res.O); i++ { // insertion sort
		for k := i; k > 0 && less(res.O[k].K, res.O[k-1].K); k-- {
			res.O[k], res.O[k-1] = res.O[k-1], res.O[k]
		}
	}
	return res
}

func (c cfg) ordered() bool { return c.less != "" || len(c.seq) > 0 || c.set }

// whatFail tells which error the reference expects.
func floatErr(j *J, c *cfg) error {
	_, err := c.resolve(j)
	return err
}

// checkMarshal decides the text of v (whose content is j, in set order) under options.
// exact compares the text byte by byte, otherwise only what it means.
func checkMarshal(v *jv.V, j *J, os []OptSpec, extra []jv.Option, c cfg, exact bool) error {
	return checkMarshalWith(v, j, os, append(options(os), extra...), c, exact)
}

// checkMarshalWith does so with options which have been made already.
func checkMarshalWith(v *jv.V, j *J, os []OptSpec, opts []jv.Option, c cfg, exact bool) error {
	b, err := v.Marshal(opts...)
	want, werr := c.resolve(sanitize(c.sortJ(j)))
	if werr != nil {
		if err == nil {
			return errf("marshaling %v with %s: got %q, want error: %v", j, mustJSON(os), b, werr)
		}
		// with NaN and Inf at once, either error may come first
		if !errors.Is(err, jv.ErrUnsupportedFloat) && !errors.Is(err, jv.ErrUnsupportedFloatInOpt) {
			return errf("marshaling %v with %s: error %q is of no float class", j, mustJSON(os), err)
		}
		both := j.has(func(x *J) bool { return x.K == KNaN }) && j.has(func(x *J) bool { return x.K == KPInf || x.K == KNInf })
		if !both && errors.Is(werr, errRefOpt) != errors.Is(err, jv.ErrUnsupportedFloatInOpt) {
			return errf("marshaling %v with %s: error %q, want %q", j, mustJSON(os), err, werr)
		}
		if len(b) != 0 {
			return errf("marshaling %v with %s: %q comes with an error", j, mustJSON(os), b)
		}
		if mb := v.MustMarshal(opts...); mb == nil || len(mb) != 0 {
			return errf("MustMarshal of %v: got %q, want an empty slice", j, mb)
		}
		if ms := v.MustMarshalString(opts...); ms != "" {
			return errf("MustMarshalString of %v: got %q, want an empty string", j, ms)
		}
		return nil
	}
	if err != nil {
		return errf("marshaling %v with %s: unexpected error %q", j, mustJSON(os), err)
	}
	if !json.Valid(b) {
		return errf("marshaling %v with %s gives invalid JSON %q", j, mustJSON(os), b)
	}
	got, perr := ParseStrict(b)
	if perr != nil {
		return errf("marshaling %v with %s gives bad JSON %q: %v", j, mustJSON(os), b, perr)
	}
	if err := diffJ(got, want, cmpOpt{order: c.ordered()}); err != nil {
		return errf("marshaling %v with %s: text %q: %v", j, mustJSON(os), b, err)
	}
	if exact {
		var w strings.Builder
		refRender(&w, reorder(want, got), &c, 0)
		gotText := string(b)
		if c.ind && c.omit {
			// an object whose members are all omitted may be written with a line break inside
			gotText = collapseEmpty(gotText)
		}
		wantText := w.String()
		if c.ind && c.omit {
			wantText = collapseEmpty(wantText)
		}
		if gotText != wantText {
			return errf("marshaling %v with %s: got %q, want %q", j, mustJSON(os), b, wantText)
		}
	}
	s, err := v.MarshalString(opts...)
	if err != nil {
		return errf("MarshalString fails where Marshal does not: %v", err)
	}
	if err := sameMeaning(b, []byte(s), c.ordered()); err != nil {
		return errf("MarshalString differs from Marshal: %v", err)
	}
	if err := sameMeaning(b, v.MustMarshal(opts...), c.ordered()); err != nil {
		return errf("MustMarshal differs from Marshal: %v", err)
	}
	if err := sameMeaning(b, []byte(v.MustMarshalString(opts...)), c.ordered()); err != nil {
		return errf("MustMarshalString differs from Marshal: %v", err)
	}
	return nil
}

// sameMeaning compares two marshaled texts: equal bytes, or when the order of keys is
// free, equal up to it.
func sameMeaning(a, b []byte, ordered bool) error {
	if bytes.Equal(a, b) {
		return nil
	}
	if ordered {
		return errf("%q and %q", a, b)
	}
	ja, err := ParseStrict(a)
	if err != nil {
		return err
	}
	jb, err := ParseStrict(b)
	if err != nil {
		return errf("%q: %v", b, err)
	}
	if err := diffJ(jb, ja, cmpOpt{}); err != nil {
		return err
	}
	if len(a) != len(b) {
		return errf("%q and %q", a, b)
	}
	return nil
}

// collapseEmpty removes blanks between { and } outside of strings.
func collapseEmpty(s string) string {
	var b strings.Builder
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		b.WriteByte(c)
		if inStr {
			if c == '\\' && i+1 < len(s) {
				i++
				b.WriteByte(s[i])
			} else if c == '"' {
				inStr = false
			}
			continue
		}
		if c == '"' {
			inStr = true
		} else if c == '{' {
			k := i + 1
			for k < len(s) && strings.IndexByte(" \t\r\n", s[k]) >= 0 {
				k++
			}
			if k < len(s) && s[k] == '}' {
				i = k - 1
			}
		}
	}
	return b.String()
}

// dropAmbiguous removes members whose keys become equal when sanitized.
func dropAmbiguous(j *J) *J {
	res := &J{K: j.K, T: j.T}
	for _, a := range j.A {
		res.A = append(res.A, dropAmbiguous(a))
	}
	seen := map[string]bool{}
	for _, kv := range j.O {
		k := string([]rune(kv.K))
		if seen[k] {
			continue
		}
		seen[k] = true
		res.O = append(res.O, KV{kv.K, dropAmbiguous(kv.V)})
	}
	return res
}
