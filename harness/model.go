package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// S is a byte string whose JSON form is lossless for invalid UTF-8 too.
type S string

// MarshalJSON writes s quoted twice, so that invalid bytes survive.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "\"") {
		return json.Marshal(string(s))
	}
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

// UnmarshalJSON is the inverse.
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	if strings.HasPrefix(q, "\"") {
		u, err := strconv.Unquote(q)
		if err != nil {
			return err
		}
		*s = S(u)
		return nil
	}
	*s = S(q)
	return nil
}

// Kind of a model value.
type Kind byte

const (
	KNull  Kind = 'n'
	KTrue  Kind = 't'
	KFalse Kind = 'f'
	KNum   Kind = '#'
	KStr   Kind = '"'
	KArr   Kind = '['
	KObj   Kind = '{'
	KNaN   Kind = 'N'
	KPInf  Kind = '+'
	KNInf  Kind = '-'
)

// J is the reference model of a JSON value. Objects keep their keys in order.
type J struct {
	K Kind
	T string // text of a number, or content of a string
	A []*J
	O []KV

	f32  bool           // given as a float32, whose float64 has more digits
	huge *hugeSpec      // how the node was made, if it is a huge one as generated
	idx  map[string]int // where keys were when last looked at, for huge objects only
}

// KV is a member of an object.
type KV struct {
	K string
	V *J
}

func jNull() *J          { return &J{K: KNull} }
func jBool(b bool) *J    { return &J{K: map[bool]Kind{true: KTrue, false: KFalse}[b]} }
func jNum(s string) *J   { return &J{K: KNum, T: s} }
func jStr(s string) *J   { return &J{K: KStr, T: s} }
func jArr(a ...*J) *J    { return &J{K: KArr, A: a} }
func jObj(kv ...KV) *J   { return &J{K: KObj, O: kv} }
func jInt(i int) *J      { return jNum(strconv.Itoa(i)) }
func (j *J) isNum() bool { return j.K == KNum || j.K == KNaN || j.K == KPInf || j.K == KNInf }
func (j *J) isLeaf() bool {
	return j.K != KArr && j.K != KObj
}

// get finds a key of an object.
func (j *J) get(k string) *J {
	if len(j.O) > 2000 {
		return j.getHuge(k)
	}
	for i := range j.O {
		if j.O[i].K == k {
			return j.O[i].V
		}
	}
	return nil
}

// set sets a key: the key becomes the last one in set order.
func (j *J) set(k string, v *J) {
	j.del(k)
	j.O = append(j.O, KV{k, v})
}

func (j *J) del(k string) bool {
	for i := range j.O {
		if j.O[i].K == k {
			j.O = append(append([]KV{}, j.O[:i]...), j.O[i+1:]...)
			return true
		}
	}
	return false
}

func (j *J) clone() *J {
	if j == nil {
		return nil
	}
	c := &J{K: j.K, T: j.T, f32: j.f32}
	for _, a := range j.A {
		c.A = append(c.A, a.clone())
	}
	for _, kv := range j.O {
		c.O = append(c.O, KV{kv.K, kv.V.clone()})
	}
	return c
}

// cloneShared is clone for models which have a node at several places.
func (j *J) cloneShared() *J {
	done := map[*J]*J{}
	var f func(*J) *J
	f = func(j *J) *J {
		if c := done[j]; c != nil {
			return c
		}
		c := &J{K: j.K, T: j.T, f32: j.f32}
		done[j] = c
		for _, a := range j.A {
			c.A = append(c.A, f(a))
		}
		for _, kv := range j.O {
			c.O = append(c.O, KV{kv.K, f(kv.V)})
		}
		return c
	}
	return f(j)
}

// normalize resolves duplicate keys: the last one wins and is the last set.
func (j *J) normalize() *J {
	c := &J{K: j.K, T: j.T}
	for _, a := range j.A {
		c.A = append(c.A, a.normalize())
	}
	seen := map[string]int{}
	for i, kv := range j.O {
		seen[kv.K] = i
	}
	for i, kv := range j.O {
		if seen[kv.K] == i {
			c.O = append(c.O, KV{kv.K, kv.V.normalize()})
		}
	}
	return c
}

// walk visits all nodes, parents first.
func (j *J) walk(f func(*J, int)) { j.walkD(f, 0) }
func (j *J) walkD(f func(*J, int), d int) {
	f(j, d)
	for _, a := range j.A {
		a.walkD(f, d+1)
	}
	for _, kv := range j.O {
		kv.V.walkD(f, d+1)
	}
}

func (j *J) size() (n int) { j.walk(func(*J, int) { n++ }); return }
func (j *J) depth() (n int) {
	j.walk(func(_ *J, d int) {
		if d > n {
			n = d
		}
	})
	return
}
func (j *J) has(f func(*J) bool) (ok bool) {
	j.walk(func(x *J, _ int) {
		if f(x) {
			ok = true
		}
	})
	return
}

// ---- the notation of model values in case files: JSON, plus NaN, +Inf, -Inf, and
// \xHH for bytes of invalid UTF-8 ----

func (j *J) notation(b *strings.Builder) {
	if j.huge != nil {
		b.WriteString(j.huge.String())
		return
	}
	switch j.K {
	case KNull:
		b.WriteString("null")
	case KTrue:
		b.WriteString("true")
	case KFalse:
		b.WriteString("false")
	case KNum:
		b.WriteString(j.T)
	case KNaN:
		b.WriteString("NaN")
	case KPInf:
		b.WriteString("+Inf")
	case KNInf:
		b.WriteString("-Inf")
	case KStr:
		notateString(b, j.T)
	case KArr:
		b.WriteByte('[')
		for i, a := range j.A {
			if i > 0 {
				b.WriteByte(',')
			}
			a.notation(b)
		}
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		for i, kv := range j.O {
			if i > 0 {
				b.WriteByte(',')
			}
			notateString(b, kv.K)
			b.WriteByte(':')
			kv.V.notation(b)
		}
		b.WriteByte('}')
	default:
		harnessBug("bad kind %q", j.K)
	}
}

func notateString(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			fmt.Fprintf(b, `\x%02X`, s[i])
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20 || r == 0x7F:
			fmt.Fprintf(b, `\u%04X`, r)
		case r > 0x7E:
			if r > 0xFFFF {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(b, `\u%04X\u%04X`, h, l)
			} else {
				fmt.Fprintf(b, `\u%04X`, r)
			}
		default:
			b.WriteRune(r)
		}
		i += n
	}
	b.WriteByte('"')
}

func (j *J) String() string {
	if j == nil {
		return "<nil>"
	}
	var b strings.Builder
	j.notation(&b)
	return b.String()
}

// MarshalJSON writes the notation as a JSON string.
func (j *J) MarshalJSON() ([]byte, error) { return json.Marshal(j.String()) }

// UnmarshalJSON reads it.
func (j *J) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	p := &parser{b: []byte(s), ext: true}
	v, err := p.document()
	if err != nil {
		return err
	}
	*j = *v
	return nil
}

// ---- reference JSON parser ----

type parser struct {
	b       []byte
	i       int
	lenient bool // the relaxations of the library
	ext     bool // the notation of case files
	relaxed bool // a relaxation was used
	lone    bool // a lone surrogate escape was seen
	noDup   bool
}

func (p *parser) errf(f string, a ...any) error {
	return fmt.Errorf("at %d: %s", p.i, fmt.Sprintf(f, a...))
}

// ParseStrict parses RFC 8259 JSON whose strings are well-formed Unicode.
func ParseStrict(b []byte) (*J, error) { return (&parser{b: b}).document() }

func (p *parser) document() (*J, error) {
	p.ws()
	v, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(p.b) {
		return nil, p.errf("trailing data")
	}
	return v, nil
}

func (p *parser) ws() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\n', '\r':
		case '\b':
			if !p.lenient {
				return
			}
			p.relaxed = true
		default:
			return
		}
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func (p *parser) lit(s string) bool {
	if strings.HasPrefix(string(p.b[p.i:min(len(p.b), p.i+len(s))]), s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *parser) value() (*J, error) {
	if p.i >= len(p.b) {
		return nil, p.errf("no value")
	}
	if p.ext {
		switch {
		case p.lit("NaN"):
			return &J{K: KNaN}, nil
		case p.lit("+Inf"):
			return &J{K: KPInf}, nil
		case p.lit("-Inf"):
			return &J{K: KNInf}, nil
		case p.lit("huge("):
			return p.huge()
		}
	}
	switch c := p.peek(); {
	case c == '{':
		return p.object()
	case c == '[':
		return p.array()
	case c == '"':
		s, err := p.str()
		if err != nil {
			return nil, err
		}
		return jStr(s), nil
	case c == 't' && p.lit("true"):
		return jBool(true), nil
	case c == 'f' && p.lit("false"):
		return jBool(false), nil
	case c == 'n' && p.lit("null"):
		return jNull(), nil
	case c == '-' || (c >= '0' && c <= '9'):
		s := p.i
		for p.i < len(p.b) && strings.IndexByte("0123456789+-.eE", p.b[p.i]) >= 0 {
			p.i++
		}
		t := string(p.b[s:p.i])
		if !isJSONNumber(t) {
			return nil, p.errf("bad number %q", t)
		}
		return jNum(t), nil
	}
	return nil, p.errf("unexpected %q", p.peek())
}

// isJSONNumber decides the grammar of RFC 8259 numbers.
func isJSONNumber(t string) bool {
	i := 0
	digits := func() int {
		s := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i - s
	}
	if i < len(t) && t[i] == '-' {
		i++
	}
	s := i
	n := digits()
	if n == 0 || (n > 1 && t[s] == '0') {
		return false
	}
	if i < len(t) && t[i] == '.' {
		i++
		if digits() == 0 {
			return false
		}
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		if digits() == 0 {
			return false
		}
	}
	return i == len(t)
}

func (p *parser) commas() {
	for p.lenient {
		p.ws()
		if p.peek() != ',' || p.i >= len(p.b) {
			return
		}
		p.i++
		p.relaxed = true
	}
}

func (p *parser) array() (*J, error) {
	p.i++
	res := jArr()
	p.ws()
	if p.lenient {
		p.commas()
	}
	if p.peek() == ']' {
		p.i++
		return res, nil
	}
	for {
		p.ws()
		v, err := p.value()
		if err != nil {
			return nil, err
		}
		res.A = append(res.A, v)
		done, err := p.separator(']')
		if err != nil {
			return nil, err
		}
		if done {
			return res, nil
		}
	}
}

// separator goes past what follows an element.
func (p *parser) separator(end byte) (done bool, err error) {
	p.ws()
	if p.i >= len(p.b) {
		return false, p.errf("unexpected end")
	}
	if p.peek() == end {
		p.i++
		return true, nil
	}
	if p.peek() == ',' {
		p.i++
		p.ws()
		if p.lenient {
			p.commas()
			if p.peek() == end {
				p.relaxed = true
				p.i++
				return true, nil
			}
		}
		return false, nil
	}
	if p.lenient {
		p.relaxed = true
		return false, nil // a missing comma
	}
	return false, p.errf("expected ',' or %q", end)
}

func (p *parser) object() (*J, error) {
	p.i++
	res := jObj()
	p.ws()
	if p.lenient {
		p.commas()
	}
	if p.peek() == '}' {
		p.i++
		return res, nil
	}
	for {
		p.ws()
		if p.peek() != '"' {
			return nil, p.errf("expected a key")
		}
		k, err := p.str()
		if err != nil {
			return nil, err
		}
		p.ws()
		if p.peek() != ':' {
			return nil, p.errf("expected ':'")
		}
		p.i++
		p.ws()
		v, err := p.value()
		if err != nil {
			return nil, err
		}
		res.O = append(res.O, KV{k, v})
		done, err := p.separator('}')
		if err != nil {
			return nil, err
		}
		if done {
			return res, nil
		}
	}
}

func (p *parser) hex4() (rune, error) {
	if p.i+4 > len(p.b) {
		return 0, p.errf("short \\u escape")
	}
	var r rune
	for _, c := range p.b[p.i : p.i+4] {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c >= '0' && c <= '9' {
			d = int(c - '0')
		} else if !(c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			d = -1
		}
		if d < 0 {
			return 0, p.errf("bad hex digit %q", c)
		}
		r = r<<4 | rune(d)
	}
	p.i += 4
	return r, nil
}

func (p *parser) str() (string, error) {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			return "", p.errf("unterminated string")
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), nil
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", p.errf("unterminated escape")
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case '\'':
				if !p.lenient {
					return "", p.errf("bad escape")
				}
				p.relaxed = true
				out = append(out, '\'')
			case 'x':
				if !p.ext {
					return "", p.errf("bad escape")
				}
				u, err := strconv.ParseUint(string(p.b[p.i:p.i+2]), 16, 8)
				if err != nil {
					return "", err
				}
				out = append(out, byte(u))
				p.i += 2
			case 'u':
				r, err := p.hex4()
				if err != nil {
					return "", err
				}
				if utf16.IsSurrogate(r) {
					if r >= 0xDC00 || p.i+1 >= len(p.b) || p.b[p.i] != '\\' || p.b[p.i+1] != 'u' {
						p.lone = true
						return "", p.errf("lone surrogate")
					}
					p.i += 2
					r2, err := p.hex4()
					if err != nil {
						return "", err
					}
					r = utf16.DecodeRune(r, r2)
					if r == utf8.RuneError {
						p.lone = true
						return "", p.errf("lone surrogate")
					}
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", p.errf("bad escape %q", e)
			}
		case c < 0x20:
			if !p.lenient {
				return "", p.errf("raw control character in a string")
			}
			p.relaxed = true
			out = append(out, c)
			p.i++
		case c < 0x80:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n <= 1 {
				return "", p.errf("invalid UTF-8")
			}
			out = append(out, p.b[p.i:p.i+n]...)
			p.i += n
		}
	}
}

// ---- numbers ----

var (
	minInt64Big  = big.NewInt(math.MinInt64)
	maxUint64Big = new(big.Int).SetUint64(math.MaxUint64)
)

func numIsFloatText(t string) bool { return strings.ContainsAny(t, ".eE") }

// numInRange tells whether the library's documented number range includes t.
func numInRange(t string) bool {
	if numIsFloatText(t) {
		_, err := strconv.ParseFloat(t, 64)
		return err == nil
	}
	z, ok := new(big.Int).SetString(t, 10)
	return ok && z.Cmp(minInt64Big) >= 0 && z.Cmp(maxUint64Big) <= 0
}

// numRat is the exact value of a number; ok is false if its exponent is huge.
func numRat(t string) (r *big.Rat, ok bool) {
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		e, err := strconv.Atoi(t[i+1:])
		if err != nil || e > 2000 || e < -2000 {
			return nil, false
		}
	}
	return new(big.Rat).SetString(t)
}

// decNum is a number as 0.digits x 10^exp, without zeros at either end of the digits.
type decNum struct {
	sign int
	dig  string
	exp  int64
}

// numDec takes a number apart; ok is false if the exponent does not fit into 32 bits.
func numDec(t string) (d decNum, ok bool) {
	d.sign = 1
	if strings.HasPrefix(t, "-") {
		d.sign, t = -1, t[1:]
	}
	if i := strings.IndexAny(t, "eE"); i >= 0 {
		e, err := strconv.ParseInt(t[i+1:], 10, 64)
		if err != nil || e > math.MaxInt32-5000 || e < math.MinInt32+5000 {
			return d, false
		}
		d.exp, t = e, t[:i]
	}
	whole, frac, _ := strings.Cut(t, ".")
	d.exp += int64(len(whole))
	d.dig = strings.TrimRight(whole+frac, "0")
	n := len(d.dig)
	d.dig = strings.TrimLeft(d.dig, "0")
	d.exp -= int64(n - len(d.dig))
	if d.dig == "" {
		return decNum{}, true
	}
	return d, true
}

func (d decNum) cmp(o decNum) int {
	switch {
	case d.sign != o.sign:
		if d.sign > o.sign {
			return 1
		}
		return -1
	case d.sign == 0:
		return 0
	case d.exp > o.exp:
		return d.sign
	case d.exp < o.exp:
		return -d.sign
	}
	return d.sign * strings.Compare(d.dig, o.dig)
}

func allInRange(j *J) bool {
	return !j.has(func(x *J) bool { return x.K == KNum && !numInRange(x.T) })
}

// ---- comparing ----

type cmpOpt struct {
	order    bool // keys in the same order
	numValue bool // numbers equal by value, otherwise by text
}

// atErr is an error somewhere in a document.
type atErr struct {
	segs []string // the path, in reverse
	msg  string
}

func (e *atErr) Error() string {
	var b strings.Builder
	b.WriteByte('$')
	for i := len(e.segs) - 1; i >= 0; i-- {
		b.WriteString(e.segs[i])
	}
	return b.String() + ": " + e.msg
}

func atf(format string, a ...any) error { return &atErr{msg: fmt.Sprintf(format, a...)} }

func at(err error, format string, a ...any) error {
	e := err.(*atErr)
	e.segs = append(e.segs, fmt.Sprintf(format, a...))
	return e
}

func diffJ(got, want *J, o cmpOpt) error { return diffAt(got, want, o) }

func diffAt(got, want *J, o cmpOpt) error {
	if got == nil || want == nil {
		if got == want {
			return nil
		}
		return atf("got %v, want %v", got, want)
	}
	if got.K != want.K {
		return atf("got %v, want %v", got, want)
	}
	switch got.K {
	case KNum:
		if got.T == want.T {
			return nil
		}
		if o.numValue {
			a, ok1 := numDec(got.T)
			b, ok2 := numDec(want.T)
			if ok1 && ok2 && a.cmp(b) == 0 {
				return nil
			}
		}
		return atf("got number %s, want %s", got.T, want.T)
	case KStr:
		if got.T != want.T {
			return atf("got string %q, want %q", got.T, want.T)
		}
	case KArr:
		if len(got.A) != len(want.A) {
			return atf("got %d elements %v, want %d %v", len(got.A), got, len(want.A), want)
		}
		for i := range got.A {
			if err := diffAt(got.A[i], want.A[i], o); err != nil {
				return at(err, "[%d]", i)
			}
		}
	case KObj:
		if len(got.O) != len(want.O) {
			return atf("got %d members %v, want %d %v", len(got.O), got, len(want.O), want)
		}
		for i, kv := range want.O {
			if o.order && got.O[i].K != kv.K {
				return atf("member %d is %q, want %q (got %v, want %v)", i, got.O[i].K, kv.K, got, want)
			}
			g := got.O[i].V
			if got.O[i].K != kv.K {
				g = got.get(kv.K)
			}
			if g == nil {
				return atf("member %q is missing in %v", kv.K, got)
			}
			if err := diffAt(g, kv.V, o); err != nil {
				return at(err, ".%q", kv.K)
			}
		}
	}
	return nil
}

// ---- reading a *jv.V through the public API ----

// Read turns v into the model, with keys in the order of RangeObjectsBySetSequence.
func Read(v *jv.V) (*J, error) { return readAt(v) }

func readAt(v *jv.V) (*J, error) {
	if v == nil {
		return nil, atf("nil *V")
	}
	switch v.ValueType() {
	case jv.String:
		return jStr(v.String()), nil
	case jv.Boolean:
		return jBool(v.Bool()), nil
	case jv.Null:
		return jNull(), nil
	case jv.Number:
		f := v.Float64()
		switch {
		case math.IsNaN(f):
			return &J{K: KNaN}, nil
		case math.IsInf(f, 1):
			return &J{K: KPInf}, nil
		case math.IsInf(f, -1):
			return &J{K: KNInf}, nil
		}
		return jNum(v.String()), nil
	case jv.Array:
		res := jArr()
		for i, c := range v.ForRangeArr() {
			j, err := readAt(c)
			if err != nil {
				return nil, at(err, "[%d]", i)
			}
			res.A = append(res.A, j)
		}
		if v.Len() != len(res.A) {
			return nil, atf("Len() is %d for %d elements", v.Len(), len(res.A))
		}
		return res, nil
	case jv.Object:
		res := jObj()
		var err error
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool {
			var j *J
			j, err = readAt(c)
			if err != nil {
				err = at(err, ".%q", k)
				return false
			}
			res.O = append(res.O, KV{k, j})
			return true
		})
		if err != nil {
			return nil, err
		}
		if v.Len() != len(res.O) {
			return nil, atf("Len() is %d for %d members", v.Len(), len(res.O))
		}
		return res, nil
	}
	return nil, atf("value type %v", v.ValueType())
}

// expectV checks that v is want.
func expectV(what string, v *jv.V, want *J, o cmpOpt) error {
	got, err := Read(v)
	if err != nil {
		return errf("%s: %v (want %v)", what, err, want)
	}
	if err := diffJ(got, want, o); err != nil {
		return errf("%s: %v", what, err)
	}
	return nil
}

func isNotExist(v *jv.V) bool { return v != nil && v.ValueType() == jv.NotExist }

// ---- building a *jv.V ----

// Build makes the value with the constructors and Set/Append on fresh values, which
// gives objects the set order of the model.
func Build(j *J) *jv.V {
	switch j.K {
	case KNull:
		return jv.NewNull()
	case KTrue:
		return jv.NewBool(true)
	case KFalse:
		return jv.NewBool(false)
	case KNum:
		v, err := jv.UnmarshalString(j.T)
		if err != nil {
			panic(fmt.Sprintf("number %s is rejected: %v", j.T, err))
		}
		return v
	case KNaN:
		return jv.NewFloat64(math.NaN())
	case KPInf:
		return jv.NewFloat64(math.Inf(1))
	case KNInf:
		return jv.NewFloat64(math.Inf(-1))
	case KStr:
		return jv.NewString(j.T)
	case KArr:
		v := jv.NewArray()
		for _, a := range j.A {
			v.MustAppend(Build(a)).InTheEnd()
		}
		return v
	case KObj:
		v := jv.NewObject()
		for _, kv := range j.O {
			v.MustSet(Build(kv.V)).At(kv.K)
		}
		return v
	}
	harnessBug("bad kind %q", j.K)
	return nil
}

// renderPlain is compact JSON text of a model without special floats.
func renderPlain(j *J) string { return renderWith(j, nil) }

// sortedKeys of an object, in bytewise order.
func sortedKeys(j *J) []string {
	res := make([]string, 0, len(j.O))
	for _, kv := range j.O {
		res = append(res, kv.K)
	}
	sort.Strings(res)
	return res
}

// style supplies small choices, cycling through drawn bytes.
type style struct {
	b []byte
	i int
}

func (s *style) next(n int) int {
	if s == nil || len(s.b) == 0 {
		return 0
	}
	x := int(s.b[s.i%len(s.b)])
	s.i++
	return x % n
}

var blanks = []string{"", " ", "\n", "\t", "\r\n", "  "}

// renderWith renders JSON text whose blanks and escapes are chosen by st.
func renderWith(j *J, st *style) string {
	var b strings.Builder
	renderTo(&b, j, st)
	return b.String()
}

func renderTo(b *strings.Builder, j *J, st *style) {
	sp := func() { b.WriteString(blanks[st.next(len(blanks))]) }
	switch j.K {
	case KNull:
		b.WriteString("null")
	case KTrue:
		b.WriteString("true")
	case KFalse:
		b.WriteString("false")
	case KNum:
		b.WriteString(j.T)
	case KStr:
		renderStr(b, j.T, st)
	case KArr:
		b.WriteByte('[')
		sp()
		for i, a := range j.A {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			renderTo(b, a, st)
			sp()
		}
		b.WriteByte(']')
	case KObj:
		b.WriteByte('{')
		sp()
		for i, kv := range j.O {
			if i > 0 {
				b.WriteByte(',')
				sp()
			}
			renderStr(b, kv.K, st)
			sp()
			b.WriteByte(':')
			sp()
			renderTo(b, kv.V, st)
			sp()
		}
		b.WriteByte('}')
	default:
		harnessBug("cannot render kind %q", j.K)
	}
}

func renderStr(b *strings.Builder, s string, st *style) {
	b.WriteByte('"')
	for _, r := range s {
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		must := r < 0x20 || r == '"' || r == '\\'
		mode := st.next(4) // 0 raw, 1 short escape, 2 \u upper, 3 \u lower
		if must && mode == 0 {
			mode = 1
		}
		if mode == 1 && short < 0 {
			if must {
				mode = 2
			} else {
				mode = 0
			}
		}
		f := `\u%04X`
		if mode == 3 {
			f = `\u%04x`
		}
		switch mode {
		case 0:
			b.WriteRune(r)
		case 1:
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[short])
		default:
			if r > 0xFFFF {
				h, l := utf16.EncodeRune(r)
				fmt.Fprintf(b, f+f, h, l)
			} else {
				fmt.Fprintf(b, f, r)
			}
		}
	}
	b.WriteByte('"')
}
