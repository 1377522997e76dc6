package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- the reference meaning of numbers ----

// numView is what the conversions of a number must give; nil where the number has no
// exact counterpart and nothing is promised.
type numView struct {
	f   float64
	i64 *int64
	u64 *uint64
}

func viewOf(text string) numView {
	f, err := strconv.ParseFloat(text, 64)
	if err != nil && !math.IsInf(f, 0) {
		harnessBug("number %q", text)
	}
	return viewOfFloatOrInt(text, f)
}

func viewOfFloatOrInt(text string, f float64) numView {
	n := numView{f: f}
	if !numIsFloatText(text) {
		if i, err := strconv.ParseInt(text, 10, 64); err == nil {
			n.i64 = &i
		}
		if u, err := strconv.ParseUint(text, 10, 64); err == nil {
			n.u64 = &u
		} else if text == "-0" {
			n.u64 = new(uint64)
		}
		return n
	}
	t := math.Trunc(f)
	if t >= -9223372036854775808 && t < 9223372036854775808 {
		i := int64(t)
		n.i64 = &i
	}
	if t >= 0 && t < 18446744073709551616 {
		u := uint64(t)
		n.u64 = &u
	}
	return n
}

var zeroView = viewOf("0")

func sameFloat(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// numberSource supplies conversions, by the methods or by the getters.
type numberSource struct {
	Int     func() int
	Uint    func() uint
	Int64   func() int64
	Uint64  func() uint64
	Int32   func() int32
	Uint32  func() uint32
	Float64 func() float64
	Float32 func() float32
}

func (s numberSource) check(what string, n numView) error {
	if g := s.Float64(); !sameFloat(g, n.f) {
		return errf("%s: Float64 %v, want %v", what, g, n.f)
	}
	if g := s.Float32(); !sameFloat(float64(g), float64(float32(n.f))) {
		return errf("%s: Float32 %v, want %v", what, g, float32(n.f))
	}
	if n.i64 != nil {
		i := *n.i64
		if g := s.Int64(); g != i {
			return errf("%s: Int64 %v, want %v", what, g, i)
		}
		if g := s.Int(); int64(g) != i {
			return errf("%s: Int %v, want %v", what, g, i)
		}
		if i >= math.MinInt32 && i <= math.MaxInt32 {
			if g := s.Int32(); int64(g) != i {
				return errf("%s: Int32 %v, want %v", what, g, i)
			}
		}
	}
	if n.u64 != nil {
		u := *n.u64
		if g := s.Uint64(); g != u {
			return errf("%s: Uint64 %v, want %v", what, g, u)
		}
		if g := s.Uint(); uint64(g) != u {
			return errf("%s: Uint %v, want %v", what, g, u)
		}
		if u <= math.MaxUint32 {
			if g := s.Uint32(); uint64(g) != u {
				return errf("%s: Uint32 %v, want %v", what, g, u)
			}
		}
	}
	return nil
}

func methods(v *jv.V) numberSource {
	return numberSource{v.Int, v.Uint, v.Int64, v.Uint64, v.Int32, v.Uint32, v.Float64, v.Float32}
}

// strNumber is the number which a string stands for; ok is false if none.
func strNumber(s string) (string, bool) {
	t := strings.TrimSpace(s)
	return t, isJSONNumber(t) && numInRange(t)
}

// numbersOf is what conversions to numbers give for any value.
func numbersOf(j *J) (n numView, known bool) {
	switch j.K {
	case KNum:
		return viewOf(j.T), true
	case KNaN:
		return numView{f: math.NaN()}, true
	case KPInf:
		return numView{f: math.Inf(1)}, true
	case KNInf:
		return numView{f: math.Inf(-1)}, true
	case KStr:
		if t, ok := strNumber(j.T); ok {
			return viewOf(t), true
		}
	}
	return zeroView, true
}

// boolOf is what conversions to bool give for any value.
func boolOf(j *J) bool {
	switch j.K {
	case KTrue:
		return true
	case KNum:
		return viewOf(j.T).f != 0
	case KNaN, KPInf, KNInf:
		return true
	case KStr:
		return j.T == "true"
	}
	return false
}

// checkConv decides all predicates and conversions of v, which stands for j.
func checkConv(what string, v *jv.V, j *J) error {
	kinds := []struct {
		name string
		got  bool
		want bool
	}{
		{"IsObject", v.IsObject(), j.K == KObj},
		{"IsArray", v.IsArray(), j.K == KArr},
		{"IsString", v.IsString(), j.K == KStr},
		{"IsNumber", v.IsNumber(), j.isNum()},
		{"IsBoolean", v.IsBoolean(), j.K == KTrue || j.K == KFalse},
		{"IsNull", v.IsNull(), j.K == KNull},
	}
	for _, k := range kinds {
		if k.got != k.want {
			return errf("%s: %s of %v is %v", what, k.name, j, k.got)
		}
	}
	typ, name := jv.Number, "number"
	switch j.K {
	case KObj:
		typ, name = jv.Object, "object"
	case KArr:
		typ, name = jv.Array, "array"
	case KStr:
		typ, name = jv.String, "string"
	case KTrue, KFalse:
		typ, name = jv.Boolean, "boolean"
	case KNull:
		typ, name = jv.Null, "null"
	}
	if got := v.ValueType(); got != typ || got.String() != name || fmt.Sprint(got) != name {
		return errf("%s: ValueType of %v is %v (%d)", what, j, got, int(got))
	}
	n, _ := numbersOf(j)
	if err := methods(v).check(what+": "+j.String(), n); err != nil {
		return err
	}
	if g, w := v.Bool(), boolOf(j); g != w {
		return errf("%s: Bool of %v is %v", what, j, g)
	}
	wantB := []byte{}
	if j.K == KStr {
		if b, err := base64.StdEncoding.DecodeString(j.T); err == nil {
			wantB = b
		}
	}
	if g := v.Bytes(); g == nil || string(g) != string(wantB) {
		return errf("%s: Bytes of %v is %q, want %q", what, j, g, wantB)
	}
	wantLen := len(j.A) + len(j.O)
	if v.Len() != wantLen {
		return errf("%s: Len of %v is %d", what, j, v.Len())
	}
	if j.K == KNum {
		isFloat := numIsFloatText(j.T)
		if v.IsFloat() != isFloat || v.IsInteger() == isFloat {
			return errf("%s: %v: IsFloat %v, IsInteger %v", what, j, v.IsFloat(), v.IsInteger())
		}
		if f := viewOf(j.T).f; f != 0 {
			if v.IsNegative() != (f < 0) || v.IsPositive() != (f > 0) {
				return errf("%s: %v: IsNegative %v, IsPositive %v", what, j, v.IsNegative(), v.IsPositive())
			}
		}
		if !isFloat {
			_, err := strconv.ParseInt(j.T, 10, 64)
			if big := err != nil; v.GreaterThanInt64Max() != big {
				return errf("%s: %v: GreaterThanInt64Max %v", what, j, v.GreaterThanInt64Max())
			}
		}
	}
	if !j.isNum() {
		if v.IsFloat() || v.IsInteger() || v.IsNegative() || v.IsPositive() || v.GreaterThanInt64Max() {
			return errf("%s: %v passes for a number", what, j)
		}
	}
	return checkString(what, v, j)
}

// checkString decides String().
func checkString(what string, v *jv.V, j *J) error {
	s := v.String()
	rest, err := eatString(s, j)
	if err == nil && rest != "" {
		err = errf("trailing %q", rest)
	}
	if err != nil {
		return errf("%s: String of %v is %q: %v", what, j, s, err)
	}
	return nil
}

// eatString removes the String() form of j from the front of s. The order of keys is free.
func eatString(s string, j *J) (string, error) {
	lit := func(t string) (string, error) {
		if !strings.HasPrefix(s, t) {
			return "", errf("want %q at %q", t, s)
		}
		return s[len(t):], nil
	}
	switch j.K {
	case KNull:
		return lit("null")
	case KTrue:
		return lit("true")
	case KFalse:
		return lit("false")
	case KNum, KStr:
		return lit(j.T)
	case KNaN:
		return lit("NaN")
	case KPInf:
		return lit("+Inf")
	case KNInf:
		return lit("-Inf")
	case KArr:
		var err error
		if s, err = lit("["); err != nil {
			return "", err
		}
		for i, a := range j.A {
			if i > 0 {
				if s, err = lit(", "); err != nil {
					return "", err
				}
			}
			if s, err = eatString(s, a); err != nil {
				return "", err
			}
		}
		return lit("]")
	}
	// members may come in any order: search for one
	if !strings.HasPrefix(s, "{") {
		return "", errf("want an object at %q", s)
	}
	rest, ok := eatMembers(s[1:], j.O, 0, map[int]bool{}, new(int))
	if !ok {
		return "", errf("members of %v do not match %q", j, s)
	}
	return rest, nil
}

func eatMembers(s string, kvs []KV, done int, used map[int]bool, budget *int) (string, bool) {
	if done == len(kvs) {
		if strings.HasPrefix(s, "}") {
			return s[1:], true
		}
		return "", false
	}
	if *budget++; *budget > 20000 {
		return "", false
	}
	if done > 0 {
		if !strings.HasPrefix(s, ", ") {
			return "", false
		}
		s = s[2:]
	}
	for i, kv := range kvs {
		if used[i] || !strings.HasPrefix(s, kv.K+": ") {
			continue
		}
		rest, err := eatString(s[len(kv.K)+2:], kv.V)
		if err != nil {
			continue
		}
		used[i] = true
		if r, ok := eatMembers(rest, kvs, done+1, used, budget); ok {
			return r, true
		}
		used[i] = false
	}
	return "", false
}

// ---- P04: numbers ----

type numCase struct {
	Texts []S
}

func genNumText(t *rapid.T) string {
	if chance(t, 75) {
		return genNumAny(t)
	}
	if coin(t) { // close to a number
		b := []byte(genNumAny(t))
		n := in(t, 1, 2)
		for i := 0; i < n; i++ {
			p := in(t, 0, len(b))
			c := "0123456789+-.eE"[pick(t, 15)]
			switch pick(t, 3) {
			case 0:
				b = append(b[:p:p], append([]byte{c}, b[p:]...)...)
			case 1:
				if p < len(b) {
					b = append(b[:p:p], b[p+1:]...)
				}
			default:
				if p < len(b) {
					b[p] = c
				}
			}
		}
		return string(b)
	}
	n := in(t, 1, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("00123.-+eE"[pick(t, 10)])
	}
	return b.String()
}

func checkNumText(text string, st *Stat) error {
	if text == "" {
		return nil
	}
	valid := isJSONNumber(text)
	inRange := valid && numInRange(text)
	switch {
	case !valid:
		st.Label("not a number")
	case !inRange:
		st.Label("out of range")
	case numIsFloatText(text):
		st.Label("float")
	default:
		st.Label("integer")
	}
	if len(text) >= 3 {
		st.NT()
	}
	ctx := []struct {
		pre, post string
		path      []any
	}{
		{"", "", nil}, {" ", "\n", nil}, {"[", "]", []any{0}}, {"[1,", ",2]", []any{1}}, {`{"k":`, "}", []any{"k"}}, {`{"a":{"k": `, ` , "b":0}}`, []any{"a", "k"}}, {"[[", "\t]]", []any{0, -1}},
	}
	for _, c := range ctx {
		full := c.pre + text + c.post
		root, err := jv.UnmarshalString(full)
		if (err == nil) != inRange {
			if err == nil {
				return errf("%q is accepted", full)
			}
			return errf("%q is rejected: %v", full, err)
		}
		if err != nil {
			continue
		}
		v := root
		if c.path != nil {
			if v, err = root.Get(c.path[0], c.path[1:]...); err != nil {
				return errf("%q: Get: %v", full, err)
			}
		}
		if err := checkConv(full, v, jNum(text)); err != nil {
			return err
		}
		if m, err := v.MarshalString(); err != nil || m != text {
			return errf("%q is marshaled as %q, %v", text, m, err)
		}
		if m, err := root.Marshal(); err != nil {
			return errf("%q: %v", full, err)
		} else if again, err := jv.Unmarshal(m); err != nil || !again.Equal(root) {
			return errf("%q is marshaled as %q: differs, %v", full, m, err)
		}
	}
	// a string of the text converts to the same number
	v := jv.NewString(text)
	if err := checkConv("string "+text, v, jStr(text)); err != nil {
		return err
	}
	v = jv.NewString(" \t" + text + "\r\n")
	if err := checkConv("string with blanks "+text, v, jStr(" \t"+text+"\r\n")); err != nil {
		return err
	}
	return nil
}

// ---- P12: comparison of numbers ----

type cmpCase struct {
	A, B *J
	FA   int // how the values are made
	FB   int
}

// respell gives another text of the same number, or the same if none fits.
func respell(t *rapid.T, s string) string {
	r, ok := numRat(s)
	if !ok {
		return s
	}
	var out string
	switch pick(t, 6) {
	case 0:
		out = s
		if !numIsFloatText(s) {
			out += ".0"
		} else if !strings.ContainsAny(s, "eE") {
			out += "0"
		}
	case 1:
		if !strings.ContainsAny(s, "eE") {
			out = s + of(t, []string{"e0", "E+0", "e-0", "E00"})
		}
	case 2:
		if r.IsInt() {
			out = r.Num().String()
		}
	case 3: // shift by a power of ten
		if !numIsFloatText(s) {
			k := in(t, 1, 5)
			out = s + strings.Repeat("0", k) + "e-" + strconv.Itoa(k)
			if strings.TrimLeft(s, "-0") == "" {
				out = s + "e" + strconv.Itoa(k)
			}
		}
	case 4:
		if i := strings.IndexAny(s, "eE"); i >= 0 {
			if e, err := strconv.Atoi(s[i+1:]); err == nil && strings.Contains(s[:i], ".") {
				out = s[:i] + "0" + "E" + strconv.Itoa(e)
			}
		} else if r.IsInt() && len(r.Num().String()) < 300 {
			out = r.Num().String() + "." + strings.Repeat("0", in(t, 1, 25))
		}
	default:
		if f, exact := r.Float64(); exact {
			out = strconv.FormatFloat(f, 'e', -1, 64)
		}
	}
	if out == "" || !isJSONNumber(out) || !numInRange(out) {
		return s
	}
	if r2, ok := numRat(out); !ok || r2.Cmp(r) != 0 {
		return s
	}
	return out
}

// far changes a number so that a careless conversion maps both to the same.
func far(t *rapid.T, s string) string {
	r, ok := numRat(s)
	if !ok {
		return s
	}
	if r.IsInt() {
		d := new(big.Int).Lsh(big.NewInt(1), uint(of(t, []int{0, 1, 8, 16, 24, 31, 32, 52, 53, 63, 64})))
		if coin(t) {
			d.Neg(d)
		}
		if chance(t, 20) {
			d.Mul(d, big.NewInt(int64(in(t, 2, 9))))
		}
		x := d.Add(d, r.Num()).String()
		if numInRange(x) {
			return x
		}
		return s
	}
	f, _ := r.Float64()
	if e := strings.IndexAny(s, "eE"); e < 0 {
		if len(s) > 17 { // beyond the precision of float64
			return s + "1"
		}
		return of(t, []string{s + "00000000000000000001", strconv.FormatFloat(math.Nextafter(f, math.Inf(1)), 'f', -1, 64), strconv.FormatFloat(float64(float32(f)), 'f', -1, 64), s[:strings.Index(s, ".")]})
	}
	return strconv.FormatFloat(math.Nextafter(f, math.Inf(1)), 'e', -1, 64)
}

// neighbour changes a number a little.
func neighbour(t *rapid.T, s string) string {
	if chance(t, 40) {
		if x := far(t, s); x != s && isJSONNumber(x) && numInRange(x) {
			if _, ok := numDec(x); ok {
				return x
			}
		}
	}
	b := []byte(s)
	for tries := 0; tries < 4; tries++ {
		p := pick(t, len(b))
		if b[p] >= '0' && b[p] <= '9' {
			c := append([]byte{}, b...)
			c[p] = byte('0' + (int(b[p]-'0')+in(t, 1, 9))%10)
			if isJSONNumber(string(c)) && numInRange(string(c)) {
				if _, ok := numDec(string(c)); ok {
					return string(c)
				}
			}
		}
	}
	if strings.HasPrefix(s, "-") {
		return s[1:]
	}
	if n := "-" + s; numInRange(n) {
		return n
	}
	return s
}

// genRatNum draws a number of bounded exponent.
func genRatNum(t *rapid.T) string {
	if chance(t, 3) { // extreme ones
		z := strings.Repeat("0", in(t, 0, 3))
		return of(t, []string{"", "-"}) + of(t, []string{"0e", "0.0e", "1" + z + "e-", "12.5e-", "-0e"[1:], "0e-", "9.99e-", "0.00" + z + "1e-"}) + of(t, []string{"309", "330", "400", "2001", "9999", "65536", "1000000", "123456789", "1000000000", "2000000000"})
	}
	for i := 0; i < 20; i++ {
		s := genNum(t)
		if _, ok := numDec(s); ok {
			return s
		}
	}
	return "1"
}

func genCmp(t *rapid.T) cmpCase {
	c := cmpCase{FA: pick(t, 4), FB: pick(t, 4)}
	if rarely(t, 20000) { // very many digits
		n := logUniform(t, 1000, 100000)
		a := of(t, []string{"", "-"}) + of(t, []string{"0.", "1.", "12345.", "0.000000001"}) + strings.Repeat(of(t, []string{"3", "0", "9", "142857"}), n)
		b := a + of(t, []string{"", "0", "1", "00", "e0", "9"})
		switch pick(t, 4) {
		case 0:
			b = a[:len(a)-1] + "1"
		case 1:
			b = strings.TrimPrefix(a, "-")
		case 2:
			b = of(t, []string{"0", "1", "-1", "12345", "0.5", "-0.1"})
		}
		return cmpCase{A: jNum(a + of(t, []string{"", "1"})), B: jNum(b)}
	}
	one := func() *J {
		switch x := pick(t, 20); {
		case x < 15:
			return jNum(genRatNum(t))
		case x < 18:
			return &J{K: of(t, []Kind{KNaN, KPInf, KNInf})}
		default:
			return genLeaf(t, docOpt{num: genRatNum})
		}
	}
	c.A = one()
	switch {
	case c.A.K == KNum && chance(t, 35):
		c.B = jNum(respell(t, respell(t, c.A.T)))
	case c.A.K == KNum && chance(t, 40):
		c.B = jNum(neighbour(t, respell(t, c.A.T)))
	default:
		c.B = one()
	}
	return c
}

// make builds a value in one of several ways which all give j.
func (j *J) makeV(form int) *jv.V {
	if j.K == KNum {
		t := j.T
		switch form {
		case 1:
			if i, err := strconv.ParseInt(t, 10, 64); err == nil && strconv.FormatInt(i, 10) == t {
				return jv.NewInt64(i)
			}
			if u, err := strconv.ParseUint(t, 10, 64); err == nil && strconv.FormatUint(u, 10) == t {
				return jv.NewUint64(u)
			}
		case 2:
			if v, err := jv.UnmarshalString("[" + t + "]"); err == nil {
				return v.MustGet(0)
			}
		case 3:
			if f, err := strconv.ParseFloat(t, 64); err == nil {
				if v := jv.NewFloat64(f); v.String() == t {
					return v
				}
			}
		}
	}
	return Build(j)
}

func checkCmp(c cmpCase, st *Stat) error {
	a, b := c.A.makeV(c.FA), c.B.makeV(c.FB)
	var gt, eq, comparable bool
	switch {
	case !c.A.isNum() || !c.B.isNum():
		st.Label("not both numbers")
	case c.A.K == KNum && c.B.K == KNum:
		ra, ok1 := numDec(c.A.T)
		rb, ok2 := numDec(c.B.T)
		if !ok1 || !ok2 {
			return nil
		}
		st.NT()
		comparable = true
		x := ra.cmp(rb)
		gt, eq = x > 0, x == 0
		if eq {
			st.Label("equal")
			if c.A.T != c.B.T {
				st.Label("equal in other texts")
			}
		} else {
			st.Label("unequal")
		}
	case c.A.K == KNaN || c.B.K == KNaN:
		st.Label("NaN")
	default:
		st.Label("infinity")
		rank := map[Kind]int{KNInf: -1, KNum: 0, KPInf: 1}
		comparable = true
		gt, eq = rank[c.A.K] > rank[c.B.K], rank[c.A.K] == rank[c.B.K]
	}
	for _, x := range []struct {
		name      string
		got, want bool
	}{
		{"a GreaterThan b", a.GreaterThan(b), comparable && gt},
		{"a GreaterThanOrEqual b", a.GreaterThanOrEqual(b), comparable && (gt || eq)},
		{"a LessThan b", a.LessThan(b), comparable && !gt && !eq},
		{"a LessThanOrEqual b", a.LessThanOrEqual(b), comparable && !gt},
		{"b GreaterThan a", b.GreaterThan(a), comparable && !gt && !eq},
		{"b GreaterThanOrEqual a", b.GreaterThanOrEqual(a), comparable && !gt},
		{"b LessThan a", b.LessThan(a), comparable && gt},
		{"b LessThanOrEqual a", b.LessThanOrEqual(a), comparable && (gt || eq)},
	} {
		if x.got != x.want {
			return errf("a=%v, b=%v: %s is %v", c.A, c.B, x.name, x.got)
		}
	}
	if c.A.isNum() && c.B.isNum() && !(c.A.K == KNaN && c.B.K == KNaN) {
		want := eq && comparable
		if a.Equal(b) != want || b.Equal(a) != want {
			return errf("a=%v, b=%v: Equal is %v, %v", c.A, c.B, a.Equal(b), b.Equal(a))
		}
	}
	for i, x := range []*jv.V{a, b} { // with itself, and with a copy
		j := []*J{c.A, c.B}[i]
		ordered := j.isNum() && j.K != KNaN
		for _, y := range []*jv.V{x, jv.New(x)} {
			if x.GreaterThan(y) || x.LessThan(y) || x.GreaterThanOrEqual(y) != ordered || x.LessThanOrEqual(y) != ordered {
				return errf("%v compared with itself or a copy: GreaterThan %v, LessThan %v, GreaterThanOrEqual %v, LessThanOrEqual %v",
					j, x.GreaterThan(y), x.LessThan(y), x.GreaterThanOrEqual(y), x.LessThanOrEqual(y))
			}
		}
	}
	for _, x := range []*jv.V{nil, {}} {
		if a.GreaterThan(x) || a.GreaterThanOrEqual(x) || a.LessThan(x) || a.LessThanOrEqual(x) || a.Equal(x) {
			return errf("%v compares with nothing", c.A)
		}
	}
	if x := (&jv.V{}); x.GreaterThan(a) || x.GreaterThanOrEqual(a) || x.LessThan(a) || x.LessThanOrEqual(a) || x.Equal(a) {
		return errf("nothing compares with %v", c.A)
	}
	if err := expectV("a after comparing", a, c.A, cmpOpt{}); err != nil {
		return err
	}
	return expectV("b after comparing", b, c.B, cmpOpt{})
}

// ---- P11: Equal ----

type eqCase struct {
	A, B   *J
	FA, FB int
	Touch  []S // keys looked up without regard to case before comparing
	// equal parts of A (1), B (2) or both (3) are the same value, several times
	Same int `json:",omitempty"`
}

// equalJ is the reference equality.
func equalJ(a, b *J) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KNum:
		if a.T == b.T {
			return true
		}
		x, ok1 := numDec(a.T)
		y, ok2 := numDec(b.T)
		return ok1 && ok2 && x.cmp(y) == 0
	case KStr:
		return a.T == b.T
	case KArr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !equalJ(a.A[i], b.A[i]) {
				return false
			}
		}
	case KObj:
		if len(a.O) != len(b.O) {
			return false
		}
		for _, kv := range a.O {
			o := b.get(kv.K)
			if o == nil || !equalJ(kv.V, o) {
				return false
			}
		}
	}
	return true
}

// variant gives an equal document in another order and spelling.
func variant(t *rapid.T, j *J) *J {
	c := &J{K: j.K, T: j.T}
	if j.K == KNum && chance(t, 60) {
		c.T = respell(t, j.T)
	}
	for _, a := range j.A {
		c.A = append(c.A, variant(t, a))
	}
	for _, kv := range j.O {
		c.O = append(c.O, KV{kv.K, variant(t, kv.V)})
	}
	for i := len(c.O) - 1; i > 0; i-- {
		k := in(t, 0, i)
		c.O[i], c.O[k] = c.O[k], c.O[i]
	}
	return c
}

// mutateJ changes one node somewhere.
func mutateJ(t *rapid.T, root *J, o docOpt) *J {
	c := root.clone()
	var nodes []*J
	c.walk(func(x *J, _ int) { nodes = append(nodes, x) })
	x := nodes[pick(t, len(nodes))]
	switch {
	case x.K == KArr && len(x.A) > 0 && coin(t):
		i := pick(t, len(x.A))
		switch pick(t, 4) {
		case 0:
			x.A = append(x.A[:i:i], x.A[i+1:]...)
		case 1:
			x.A = append(x.A, x.A[i].clone())
		case 2:
			k := pick(t, len(x.A))
			x.A[i], x.A[k] = x.A[k], x.A[i]
		default:
			x.A[i] = genLeaf(t, o)
		}
	case x.K == KObj && len(x.O) > 0 && coin(t):
		i := pick(t, len(x.O))
		switch pick(t, 4) {
		case 0:
			x.del(x.O[i].K)
		case 1:
			if k := genKey(t); x.get(k) == nil {
				x.O[i].K = k
			}
		case 2:
			x.set(genKey(t), jNull())
		default:
			k := pick(t, len(x.O))
			x.O[i].V, x.O[k].V = x.O[k].V, x.O[i].V
		}
	case x.K == KNum && coin(t):
		x.T = neighbour(t, x.T)
	case x.K == KStr && len(x.T) > 0 && coin(t):
		switch pick(t, 6) {
		case 4, 5: // another character somewhere
			r := []rune(x.T)
			i := pick(t, len(r))
			if coin(t) {
				i = of(t, []int{0, len(r) / 2, len(r) / 3, (len(r) - 1) / 2, len(r) - 1})
			}
			if r[i] == 'y' {
				r[i] = 'x'
			} else {
				r[i] = 'y'
			}
			x.T = string(r)
		case 0:
			x.T = strings.ToUpper(x.T)
		case 1:
			x.T += " "
		case 2:
			x.T += "\x00"
		default:
			x.T = genStr(t)
		}
	default:
		*x = *genDoc(t, docOpt{depth: 1, num: o.num})
	}
	return c
}

// again repeats elements and members of j.
func again(t *rapid.T, j *J) *J {
	j = j.clone()
	var all []*J
	j.walk(func(x *J, _ int) {
		if len(x.A)+len(x.O) > 0 {
			all = append(all, x)
		}
	})
	if len(all) == 0 {
		return jArr(j, j.clone())
	}
	for n := in(t, 1, 3); n > 0; n-- {
		x := of(t, all)
		if x.K == KArr {
			i := pick(t, len(x.A))
			x.A = append(x.A[:i+1:i+1], append([]*J{x.A[i].clone()}, x.A[i+1:]...)...)
		} else {
			x.set(genKey(t), of(t, x.O).V.clone())
		}
		if j.size() > 300 {
			break
		}
	}
	return j
}

// buildSame builds j with one value for all equal parts.
func buildSame(j *J, have map[string]*jv.V) *jv.V {
	key := fmt.Sprintf("%v", j)
	if v := have[key]; v != nil {
		return v
	}
	var v *jv.V
	switch j.K {
	case KArr:
		v = jv.NewArray()
		for _, a := range j.A {
			v.MustAppend(buildSame(a, have)).InTheEnd()
		}
	case KObj:
		v = jv.NewObject()
		for _, kv := range j.O {
			v.MustSet(buildSame(kv.V, have)).At(kv.K)
		}
	default:
		v = Build(j)
	}
	have[key] = v
	return v
}

func genEq(t *rapid.T) eqCase {
	o := docOpt{depth: of(t, []int{1, 2, 3}), num: genRatNum, wide: true}
	c := eqCase{FA: pick(t, 5), FB: pick(t, 5)}
	if rarely(t, 4000) {
		c.A = genHuge(t, hugeArrays, hugeObjects, hugeTexts, hugeOthers)
		c.B = c.A
		if !chance(t, 25) {
			c.B = oneOff(t, c.A)
		}
		return c
	}
	if rarely(t, 30) { // a long text and another which hardly differs
		n := logUniform(t, 100, 5000)
		s := strings.Repeat(of(t, []string{"x", "ab", "text ", "\u00e9", "\u4e2d"}), n)
		for len(s) > n {
			_, w := utf8.DecodeLastRuneInString(s)
			s = s[:len(s)-w]
		}
		c.A = jStr(s)
		if coin(t) {
			c.A = jArr(jInt(1), c.A)
		} else if coin(t) {
			c.A = jObj(KV{s, jInt(1)})
		}
		c.B = c.A.clone()
		if !chance(t, 15) {
			r := []rune(s)
			i := pick(t, len(r))
			if coin(t) {
				i = of(t, []int{0, len(r) / 2, (len(r) - 1) / 2, len(r) / 3, len(r) / 4, len(r) - 1})
			}
			r[i] = 'y'
			switch c.B.K {
			case KStr:
				c.B.T = string(r)
			case KArr:
				c.B.A[1].T = string(r)
			default:
				c.B.O[0].K = string(r)
			}
		}
		return c
	}
	c.A = genDoc(t, o)
	switch pick(t, 5) {
	case 0:
		c.B = genDoc(t, o)
	case 1, 2:
		c.B = variant(t, c.A)
	default:
		if chance(t, 25) { // single numbers
			c.A = jNum(genRatNum(t))
			c.B = jNum(neighbour(t, respell(t, c.A.T)))
			break
		}
		c.B = variant(t, mutateJ(t, c.A, o))
	}
	if chance(t, 25) {
		c.Same = in(t, 1, 3)
		if coin(t) { // more of the same
			c.A = again(t, c.A)
			c.B = c.A.clone()
			if coin(t) {
				c.B = mutateJ(t, c.B, o)
			}
			if coin(t) {
				c.A, c.B = c.B, c.A
			}
		}
	}
	if coin(t) {
		c.Touch = []S{S(genKey(t)), S(genKey(t))}
	}
	return c
}

// originV makes j in one of several ways.
func originV(j *J, form int) (*jv.V, error) {
	switch form {
	case 0:
		return Build(j), nil
	case 1:
		return jv.UnmarshalString(renderPlain(j))
	case 2: // built over a history with junk
		v := Build(j)
		if j.K == KObj && j.get("junk!") == nil {
			v.MustSetInt(1).At("junk!")
			v.MustDelete("junk!")
		}
		if j.K == KArr {
			v.MustAppendNull().InTheBeginning()
			v.MustDelete(0)
		}
		return v, nil
	case 3: // a child of another value
		v := jv.NewObject()
		v.MustSet(Build(j)).At("x", 0, "y")
		return v.Get("x", 0, "y")
	default: // imported, i.e. copied
		return jv.Import(Build(j))
	}
}

func checkEq(c eqCase, st *Stat) error {
	a, err := originV(c.A, c.FA)
	if err != nil {
		return errf("%v: %v", c.A, err)
	}
	b, err := originV(c.B, c.FB)
	if err != nil {
		return errf("%v: %v", c.B, err)
	}
	if c.A.huge == nil && c.Same > 0 {
		if c.Same&1 > 0 {
			a = buildSame(c.A, map[string]*jv.V{})
		}
		if c.Same&2 > 0 {
			b = buildSame(c.B, map[string]*jv.V{})
		}
		st.Label("a value several times")
	}
	for _, k := range c.Touch {
		a.Caseless().MustGet(string(k))
		b.Caseless().MustGet(string(k))
	}
	want := equalJ(c.A, c.B)
	if c.A.huge != nil {
		st.Label("huge")
	}
	if !c.A.isLeaf() && c.A.size() >= 3 {
		st.NT()
	}
	if want {
		st.Label("equal")
	} else {
		st.Label("unequal")
	}
	if g := a.Equal(b); g != want {
		return errf("%v Equal %v is %v", c.A, c.B, g)
	}
	if g := b.Equal(a); g != want {
		return errf("%v Equal %v is %v", c.B, c.A, g)
	}
	if !a.Equal(a) || !b.Equal(b) {
		return errf("%v or %v is not equal to itself", c.A, c.B)
	}
	if a.Equal(nil) || a.Equal(&jv.V{}) || (&jv.V{}).Equal(a) || (*jv.V)(nil).Equal(a) {
		return errf("%v is equal to nothing", c.A)
	}
	none := &jv.V{}
	miss := jv.NewArray().MustGet(len(c.Touch))
	if none.Equal(none) || miss.Equal(miss) || none.Equal(miss) || (*jv.V)(nil).Equal(nil) || miss.Equal(nil) || miss.Equal(a) || a.Equal(miss) {
		return errf("what does not exist is equal to something")
	}
	if err := expectV("a after comparing", a, c.A, cmpOpt{order: true}); err != nil {
		return err
	}
	return expectV("b after comparing", b, c.B, cmpOpt{order: true})
}

// ---- P13: conversions of any value ----

type convCase struct {
	J     *J
	Form  int
	Bytes S
}

func genConv(t *rapid.T) convCase {
	c := convCase{Form: pick(t, 5)}
	switch pick(t, 6) {
	case 0:
		c.J = genDoc(t, docOpt{depth: of(t, []int{2, 2, 3, 4}), special: true, wide: true})
	case 1: // a string close to a number or a boolean
		s := genNumText(t)
		s = of(t, []string{"", "", " ", "\t", "\n", "\u00a0", "\u3000"}) + s + of(t, []string{"", "", " ", "\r\n", "x", " 1", ",", "\x00"})
		if chance(t, 40) { // with anything around or inside
			r := string(genRune(t))
			switch pick(t, 3) {
			case 0:
				s += r
			case 1:
				s = r + s
			default:
				i := in(t, 0, len(s))
				for i < len(s) && !utf8.RuneStart(s[i]) {
					i++
				}
				s = s[:i] + r + s[i:]
			}
		}
		c.J = jStr(s)
	case 2:
		c.J = jStr(of(t, []string{"true", "TRUE", "True", " true", "1", "t", "false", "yes", "", "null", "NaN", "Inf", "+Inf", "Infinity", "0x1p-2", "1_000", "+5", "１"}))
	case 3:
		b := drawBytes(t, 12)
		s := base64.StdEncoding.EncodeToString(b)
		switch pick(t, 6) {
		case 0:
			s = base64.URLEncoding.EncodeToString(b)
		case 1:
			s = base64.RawStdEncoding.EncodeToString(b)
		case 2:
			s += of(t, []string{"=", "A", "\n", " ", "\r\n"})
		}
		c.J = jStr(s)
	case 4:
		c.J = jNum(genNum(t))
	default:
		c.J = genLeaf(t, docOpt{special: true})
	}
	c.Bytes = S(drawBytes(t, 10))
	return c
}

func checkConvCase(c convCase, st *Stat) error {
	var v *jv.V
	var err error
	special := c.J.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf })
	if special {
		v = Build(c.J)
	} else if v, err = originV(c.J, c.Form); err != nil {
		return errf("%v: %v", c.J, err)
	}
	st.Label(string(c.J.K))
	if c.J.K == KStr {
		st.NT()
		if _, ok := strNumber(c.J.T); ok {
			st.Label("numeric string")
		}
	}
	if c.J.isNum() || c.J.size() > 2 {
		st.NT()
	}
	if err := checkConv("value", v, c.J); err != nil {
		return err
	}
	if err := expectV("after conversions", v, c.J, cmpOpt{order: true}); err != nil {
		return err
	}
	// the same through the getters of a parent
	root := jv.NewObject()
	root.MustSet(v).At("k")
	if err := checkGetters(root, []any{"k"}, c.J, nil); err != nil {
		return err
	}
	arr := jv.NewArray()
	arr.MustAppend(v).InTheEnd()
	if err := checkGetters(arr, []any{0}, c.J, nil); err != nil {
		return err
	}
	// bytes survive
	b := jv.NewBytes([]byte(c.Bytes))
	if g := string(b.Bytes()); g != string(c.Bytes) {
		return errf("Bytes of NewBytes(%q) is %q", c.Bytes, g)
	}
	if b.String() != base64.StdEncoding.EncodeToString([]byte(c.Bytes)) {
		return errf("NewBytes(%q) is %q", c.Bytes, b.String())
	}
	return nil
}

// bigInt is used to keep math/big referenced where only constants need it.
var _ = big.NewInt

func isAny(err error, classes ...error) bool {
	for _, c := range classes {
		if errors.Is(err, c) {
			return true
		}
	}
	return false
}

func init() {
	register(spec[numCase]{
		ID:    "P04",
		Rule:  "a case is up to four number texts (JSON numbers with boundary magnitudes, exponents and digit counts, and near-misses over the characters of numbers), each parsed in seven positions; the oracle is the RFC 8259 grammar, the range int64 to uint64 or float64, and strconv for all conversions; non-trivial: some text of at least three characters",
		Quick: 36000,
		Gen: func(t *rapid.T) numCase {
			n := in(t, 1, 4)
			var c numCase
			for i := 0; i < n; i++ {
				c.Texts = append(c.Texts, S(genNumText(t)))
			}
			return c
		},
		Check: func(c numCase, st *Stat) error {
			for _, x := range c.Texts {
				if err := checkNumText(string(x), st); err != nil {
					return err
				}
			}
			return nil
		},
		Assume: []string{"conversions of a number outside the range of the target type, and the sign of zero, are unspecified"},
	})
	register(spec[eqCase]{
		ID:    "P11",
		Rule:  "a case is two documents, the second independent, an equal variant (keys permuted, numbers respelled) or a variant with one mutation, made in five ways; the oracle is structural equality with exact rational numbers; non-trivial: a container of three or more nodes",
		Quick: 144000,
		Gen:   genEq, Check: checkEq,
		Assume: []string{"decimal exponents within 2000"},
	})
	register(spec[cmpCase]{
		ID:    "P12",
		Rule:  "a case is two values, mostly numbers, the second often the same number respelled or with one digit changed; the oracle compares exact rationals; non-trivial: two finite numbers",
		Quick: 480000,
		Gen:   genCmp, Check: checkCmp,
		Assume: []string{"decimal exponents within 2000"},
	})
	register(spec[convCase]{
		ID:    "P13",
		Rule:  "a case is a value (documents with NaN and infinities, strings near numbers, booleans and base64) whose predicates, conversions and String() are compared with the reference, directly and by getters; non-trivial: a string, a number or a container of three nodes",
		Quick: 180000,
		Gen:   genConv, Check: checkConvCase,
		Assume: []string{"integer conversions of numbers outside of the target's range are unspecified"},
	})
}
