package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// All random choices are rapid draws, so that shrinking and replaying work.

var genIntCache = map[[2]int]*rapid.Generator[int]{}

var genBool = rapid.Bool()

// in draws from [lo, hi], uniformly for small ranges (rapid's own ranges prefer small
// numbers so much that later alternatives would starve).
func in(t *rapid.T, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	if n := hi - lo; n < 4096 {
		k := bits.Len(uint(n))
		for try := 0; try < 6; try++ {
			u := 0
			for i := 0; i < k; i++ {
				u <<= 1
				if genBool.Draw(t, "bit") {
					u |= 1
				}
			}
			if u <= n {
				return lo + u
			}
		}
		return lo
	}
	g := genIntCache[[2]int{lo, hi}]
	if g == nil {
		g = rapid.IntRange(lo, hi)
		genIntCache[[2]int{lo, hi}] = g
	}
	return g.Draw(t, "n")
}

// pick draws from [0, n).
func pick(t *rapid.T, n int) int { return in(t, 0, n-1) }

func coin(t *rapid.T) bool { return pick(t, 2) == 1 }

// chance is true in about pct percent of draws (and shrinks to false).
func chance(t *rapid.T, pct int) bool { return in(t, 0, 127) >= 128-pct*128/100 }

func of[T any](t *rapid.T, s []T) T { return s[pick(t, len(s))] }

var genU64 = rapid.Uint64()

func u64(t *rapid.T) uint64 { return genU64.Draw(t, "u64") }

func drawBytes(t *rapid.T, max int) []byte {
	n := in(t, 0, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(t, 0, 255))
	}
	return b
}

// ---- strings and keys ----

var commonKeys = []string{"a", "b", "c", "d", "A", "B", "key", "Key"}

var oddKeys = []string{
	"aB", "AB", "ab", "Ab", "KEY", "kEy", "0", "1", "-1", "2", "", "a.b", "x y", " ",
	"é", "É", "ß", "SS", "ſ", "s", "S", "k", "\u212a", "K", "i", "İ", "I", "ı", "σ", "ς", "Σ", "中文", "中", "😀", "𝄞", "Ǆ", "ǅ", "ǆ",
	"\"", "\\", "/", "</s>", "<&>", "\n", "\t\r\n\b\f\v", "\x00", "\x1f", "\x7f", "\u0080", "\u2028", "\u2029", "\ufeff", "\ufffd", "\uffff",
	"e\u0301", "null", "true", "id", "Id", "ID", "a\x00", "a0", "{}", "[0]", "a\"b", "\\u0041", "averylongkeyaverylongkeyaverylongkeyaverylongkey",
}

// logUniform draws from [lo, hi] with about as many draws between n and 2n for each n.
func logUniform(t *rapid.T, lo, hi int) int {
	for try := 0; try < 6; try++ {
		k := in(t, bits.Len(uint(lo))-1, bits.Len(uint(hi))-1)
		n := 1<<k + in(t, 0, 1<<k-1)
		if n >= lo && n <= hi {
			return n
		}
	}
	return lo
}

// familyText is where the keys of a family get their common beginnings from.
var familyText = map[int]string{
	0: strings.Repeat("abcdefghijklmnop", 40), 1: strings.Repeat("x", 640), 2: strings.Repeat("Key_", 160), 3: strings.Repeat("é中", 128), 4: strings.Repeat("K", 640),
}

// genFamily draws a generator of keys with a common beginning.
func genFamily(t *rapid.T) func(*rapid.T) string {
	text := familyText[of(t, []int{0, 0, 1, 2, 3, 4})]
	n := in(t, 1, 40)
	if chance(t, 30) {
		n = logUniform(t, 1, 600)
	}
	for !utf8.RuneStart(text[n]) {
		n--
	}
	more := n + 8
	for !utf8.RuneStart(text[more]) {
		more++
	}
	tail := ""
	if chance(t, 40) { // and a common end
		tail = of(t, []string{"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", ".postal.code", "Ende", "z", "é中é中é中é中"})
	}
	return func(t *rapid.T) string {
		return text[:n] + of(t, []string{"", "a", "b", "c", "A", "B", "aa", "ab", "b1", "1", "2", "10", "é", "É", "\x00", text[n:more]}) + tail
	}
}

func genKey(t *rapid.T) string {
	switch c := in(t, 0, 19); {
	case c < 14:
		return of(t, commonKeys)
	case c < 18:
		return of(t, oddKeys)
	default:
		return genStr(t)
	}
}

// caseKeys collide when case is ignored.
var caseKeys = []string{
	"a", "A", "aB", "AB", "ab", "Ab", "é", "É", "σ", "ς", "Σ", "ǆ", "ǅ", "Ǆ", "k", "K", "\u212a", "s", "ſ", "S", "ß", "ẞ", "", "id", "iD", "Id", "ID", "İ", "i", "I",
}

var runeRanges = [][2]int{
	{'a', 'e'}, {0x20, 0x7E}, {0x00, 0x1F}, {0x7F, 0xFF}, {0x100, 0x7FF}, {0x800, 0xD7FF},
	{0xE000, 0xFFFF}, {0x10000, 0x10FFFF},
}

var edgeRunes = []rune{
	0, '\b', '\f', '\n', '\r', '\t', '\v', 0x1F, ' ', '"', '\\', '/', '<', '>', '&', '\'', 0x7E, 0x7F, 0x80, 0x9F, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF,
	0xD000, 0xD7FF, 0xE000, 0xFDD0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x2028, 0x2029, 0x2027, 0x202A, 0xFEFF, 'u', 'U', '0',
}

func genRune(t *rapid.T) rune {
	switch pick(t, 4) {
	case 0:
		return rune(in(t, 'a', 'e'))
	case 1:
		return of(t, edgeRunes)
	default:
		r := of(t, runeRanges)
		return rune(in(t, r[0], r[1]))
	}
}

// genStr draws well-formed text.
func genStr(t *rapid.T) string {
	switch c := in(t, 0, 15); {
	case c < 5:
		return of(t, []string{"", "a", "b", "hello", "true", "false", "null", "1", "0", "-1.5"})
	case c < 7:
		return of(t, oddKeys)
	case c < 14:
		n := in(t, 0, 8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(genRune(t))
		}
		return b.String()
	case c < 15 && coin(t):
		return strings.Repeat(string(genRune(t)), logUniform(t, 1, 400)) + string(genRune(t))
	case c < 15:
		return strings.Repeat(string(genRune(t)), of(t, []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}))
	case chance(t, 15): // long, with something special inside
		r, n := genRune(t), of(t, []int{1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000})
		i := in(t, 0, 40)
		switch pick(t, 4) {
		case 0:
			i = n / 2
		case 1:
			i = n - i
		}
		return strings.Repeat("x", i) + string(r) + strings.Repeat("x", n-i)
	default:
		n := in(t, 9, 60)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(genRune(t))
		}
		return b.String()
	}
}

// ---- numbers ----

var edgeNums = []string{
	"0", "-0", "1", "-1", "9", "10", "99", "100", "127", "128", "255", "256", "-128", "-129", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993",
	"999999999999999999", "1000000000000000000", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808",
	"9999999999999999999", "10000000000000000000", "18446744073709551614", "18446744073709551615",
	"0.0", "-0.0", "0.1", "0.5", "1.0", "1.5", "-1.5", "2.0", "0.30000000000000004", "123456789.123456789", "9007199254740993.0", "9223372036854775807.0", "9223372036854775808.0",
	"1e0", "1E0", "1e+0", "1e-0", "0e0", "0e10", "-0e0", "0e-5", "1e2", "1E+2", "100e-2", "1.5e1", "15e-1", "1e18", "1e19", "1e20", "1e21", "1e22", "1e-7", "1e-6", "123e-20", "1.7976931348623157e308", "-1.7976931348623157e308",
	"5e-324", "2.2250738585072014e-308", "1e-400", "1e308", "179769313486231570000000000000000000000.5", "18446744073709551616.0", "18446744073709551615.5", "-9223372036854775809.0", "3.4028234663852886e38", "3.5e38", "1e-46",
	"0.000000000000000000000000000000000000000000001", "100000000000000000000000000000000000000000.0", "1.000000000000000000000000000001", "16777217", "16777217.0",
}

// genNum draws the text of a number which the library accepts.
func genNum(t *rapid.T) string {
	for {
		s := genNumAny(t)
		if numInRange(s) {
			return s
		}
		s = of(t, edgeNums)
		if numInRange(s) {
			return s
		}
	}
}

// genNumAny draws the text of any JSON number.
func genNumAny(t *rapid.T) string {
	switch c := in(t, 0, 15); {
	case c < 4:
		return strconv.Itoa(in(t, -3, 20))
	case c < 7:
		return of(t, edgeNums)
	case c < 8:
		return strconv.FormatInt(int64(u64(t)), 10)
	case c < 9:
		return strconv.FormatUint(u64(t), 10)
	case c < 10:
		f := math.Float64frombits(u64(t))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "0.25"
		}
		return strconv.FormatFloat(f, byte(of(t, []rune("gegE"))), -1, 64)
	case c < 11: // a power of two or ten and its neighbours
		k := uint(in(t, 0, 63))
		x := uint64(1) << k
		x += uint64(in(t, 0, 2)) - 1
		return strconv.FormatUint(x, 10)
	case c < 12:
		n := in(t, 1, 21)
		var b strings.Builder
		if coin(t) {
			b.WriteByte('-')
		}
		b.WriteByte(byte('1' + pick(t, 9)))
		for i := 1; i < n; i++ {
			b.WriteByte(byte('0' + pick(t, 10)))
		}
		return b.String()
	default:
		var b strings.Builder
		if coin(t) {
			b.WriteByte('-')
		}
		digits := func(n int) {
			for i := 0; i < n; i++ {
				b.WriteByte(byte('0' + pick(t, 10)))
			}
			if pick(t, 12) == 0 { // a long run
				b.WriteString(strings.Repeat(of(t, []string{"0", "0", "9", "3", "10"}), logUniform(t, 1, 150)))
				if coin(t) {
					b.WriteByte(byte('0' + pick(t, 10)))
				}
			}
		}
		if chance(t, 40) {
			b.WriteByte('0')
		} else {
			b.WriteByte(byte('1' + pick(t, 9)))
			digits(of(t, []int{0, 0, 1, 2, 5, 18, 19}))
		}
		frac := coin(t)
		if frac {
			b.WriteByte('.')
			digits(of(t, []int{1, 1, 2, 3, 6, 17, 20}))
		}
		if !frac || coin(t) {
			b.WriteByte("eE"[pick(t, 2)])
			b.WriteString(of(t, []string{"", "+", "-"}))
			if pick(t, 24) == 0 {
				b.WriteString(strings.Repeat("0", logUniform(t, 1, 80)))
			}
			b.WriteString(of(t, []string{"0", "1", "2", "5", "10", "18", "19", "20", "22", "00", "007", "100", "300", "307"}))
		}
		return b.String()
	}
}

// ---- documents ----

type docOpt struct {
	depth   int // containers below the root
	special bool
	dup     bool // duplicate keys
	badUTF8 bool
	num     func(*rapid.T) string
	key     func(*rapid.T) string
	wide    bool // occasionally many children
	root    Kind // 0: any
}

func (o docOpt) numFn() func(*rapid.T) string {
	if o.num != nil {
		return o.num
	}
	return genNum
}

func (o docOpt) keyFn() func(*rapid.T) string {
	if o.key != nil {
		return o.key
	}
	return genKey
}

func defDoc() docOpt { return docOpt{depth: 3, wide: true} }

func genDoc(t *rapid.T, o docOpt) *J {
	budget := 40
	j := genNode(t, o, o.depth, o.root, &budget)
	if rarely(t, 40) {
		fatten(t, j, o)
	}
	if o.wide && chance(t, 3) {
		j = deepen(t, j, o)
	}
	if !o.dup {
		j = j.normalize()
	}
	return j
}

// fatten makes one of the containers of j large: of elements which are all alike, or all of
// one kind, or a few repeated ones, and now and then with an odd one among them.
func fatten(t *rapid.T, j *J, o docOpt) {
	var all []*J
	j.walk(func(x *J, _ int) {
		if x.K == KArr || x.K == KObj {
			all = append(all, x)
		}
	})
	if len(all) == 0 {
		return
	}
	x := of(t, all)
	n := of(t, []int{7, 8, 9, 15, 16, 17, 20, 21, 24, 25, 31, 32, 33, 40, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257})
	few := []*J{}
	theme := pick(t, 5)
	leafOf := func(k ...Kind) *J {
		for try := 0; try < 8; try++ {
			if l := genLeaf(t, o); l.K == k[0] || l.K == k[len(k)-1] {
				return l
			}
		}
		return genLeaf(t, o)
	}
	for i := in(t, 1, 4); i > 0; i-- {
		switch theme {
		case 0:
			few = append(few, jNum(o.numFn()(t)))
		case 1:
			few = append(few, leafOf(KStr))
		case 2:
			few = append(few, leafOf(KNull, KTrue))
		case 3:
			b := 3
			few = append(few, genNode(t, o, 1, of(t, []Kind{KArr, KObj}), &b))
		default:
			few = append(few, genLeaf(t, o))
		}
	}
	odd := -1
	if coin(t) {
		odd = pick(t, n)
	}
	for i := 0; i < n; i++ {
		e := few[i%len(few)].clone()
		if i == odd {
			if e = genLeaf(t, o); o.special && theme == 0 {
				e = &J{K: of(t, []Kind{KNaN, KPInf, KNInf})}
			}
		} else if theme == 0 && i >= len(few) && len(few) > 2 {
			e = jInt(i)
		}
		if x.K == KArr {
			x.A = append(x.A, e)
		} else {
			x.O = append(x.O, KV{fmt.Sprintf("k%d", i), e})
		}
	}
	if x.K == KObj && o.dup && coin(t) {
		for k := in(t, 1, 3); k > 0; k-- {
			x.O = append(x.O, KV{of(t, x.O).K, genLeaf(t, o)})
		}
	}
}

// deepen wraps a document in a deep chain of containers.
func deepen(t *rapid.T, j *J, o docOpt) *J {
	n := of(t, []int{5, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129})
	shape := in(t, 0, 3)
	for i := 0; i < n; i++ {
		var w *J
		kind := KObj
		if shape == 0 || shape > 1 && i*shape%3 != 0 {
			kind = KArr
		}
		if i == n-1 && o.root != 0 {
			kind = o.root
		}
		if kind == KArr {
			w = jArr(j)
		} else {
			w = jObj(KV{of(t, commonKeys), j})
		}
		if n < 40 && chance(t, 20) {
			if x := genLeaf(t, o); w.K == KArr {
				w.A = append(w.A, x)
			} else {
				w.O = append(w.O, KV{"z", x})
			}
		}
		j = w
	}
	return j
}

func badBytes(t *rapid.T, s string) string {
	bad := of(t, []string{"\xff", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe4\xb8", "\xf0\x9f\x98", "\xc3", "\xfe", "\xed\xbf\xbf"})
	i := in(t, 0, len(s))
	for i < len(s) && !utf8.RuneStart(s[i]) {
		i++
	}
	return s[:i] + bad + s[i:]
}

func genLeaf(t *rapid.T, o docOpt) *J {
	n := 13
	if o.special {
		n = 15
	}
	switch c := pick(t, n); {
	case c < 2:
		return jNull()
	case c < 4:
		return jBool(coin(t))
	case c < 9:
		return jNum(o.numFn()(t))
	case c < 13:
		s := genStr(t)
		if o.badUTF8 && chance(t, 15) {
			s = badBytes(t, s)
		}
		return jStr(s)
	default:
		return &J{K: of(t, []Kind{KNaN, KPInf, KNInf})}
	}
}

func genNode(t *rapid.T, o docOpt, depth int, kind Kind, budget *int) *J {
	*budget--
	c := pick(t, 10)
	if kind == KArr {
		c = 6
	} else if kind == KObj {
		c = 9
	} else if depth <= 0 || *budget <= 0 {
		c = 0
	}
	if kind == 0 && depth == o.depth && c < 5 && coin(t) { // prefer a container at the root
		c += 5
	}
	switch {
	case c < 5:
		return genLeaf(t, o)
	case c < 7:
		n := in(t, 0, 5)
		if o.wide && chance(t, 4) {
			j := jArr()
			if *budget > 0 && chance(t, 15) { // many cheap children
				n = of(t, []int{99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000})
				*budget = 0
				for i := 0; i < n; i++ {
					j.A = append(j.A, jInt(i))
				}
				j.A[pick(t, n)] = genLeaf(t, o)
				return j
			}
			n = of(t, []int{16, 31, 32, 33, 40, 64, 65})
			if coin(t) {
				n = logUniform(t, 6, 100)
			}
			for i := 0; i < n; i++ {
				j.A = append(j.A, genLeaf(t, o))
			}
			return j
		}
		j := jArr()
		for i := 0; i < n; i++ {
			j.A = append(j.A, genNode(t, o, depth-1, 0, budget))
		}
		return j
	default:
		n := in(t, 0, 5)
		j := jObj()
		if o.wide && chance(t, 4) {
			if *budget > 0 && chance(t, 10) {
				n = of(t, []int{63, 64, 65, 100, 128, 129, 256, 257, 300})
				*budget = 0
				salt := in(t, 0, 6)
				for i := 0; i < n; i++ {
					j.O = append(j.O, KV{fmt.Sprintf("k%d", (i*7+salt)%1009), jInt(i)})
				}
				j.O[pick(t, n)].V = genLeaf(t, o)
				return j
			}
			n = of(t, []int{8, 9, 13, 17, 30})
			if coin(t) {
				n = logUniform(t, 6, 100)
			}
			for i := 0; i < n; i++ {
				j.O = append(j.O, KV{fmt.Sprintf("k%d", in(t, 0, 60+n)), genLeaf(t, o)})
			}
			return j
		}
		key := o.keyFn()
		if o.key == nil && chance(t, 5) {
			key = genFamily(t)
			n = in(t, 2, 8)
		}
		for i := 0; i < n; i++ {
			k := key(t)
			if o.badUTF8 && chance(t, 5) {
				k = badBytes(t, k)
			}
			if o.dup && len(j.O) > 0 && chance(t, 15) {
				k = of(t, j.O).K
			}
			j.O = append(j.O, KV{k, genNode(t, o, depth-1, 0, budget)})
		}
		return j
	}
}

// genStyle draws the bytes which choose blanks and escapes of rendered text.
func genStyle(t *rapid.T) []byte {
	if chance(t, 20) {
		return nil
	}
	return drawBytes(t, 12)
}

// ---- paths ----

// Step is an element of a path: a key or an index.
type Step struct {
	Key   *S   `json:"k,omitempty"`
	Index *int `json:"i,omitempty"`
	U     bool `json:"u,omitempty"` // give the index as an unsigned type
	W     bool `json:"w,omitempty"` // give the index plus 2^64, i.e. its bits as an unsigned number
}

// idx is the index which is meant.
func (s Step) idx() int {
	if s.W && *s.Index < 0 {
		return math.MaxInt64 // beyond any length
	}
	return *s.Index
}

func kStep(s string) Step { k := S(s); return Step{Key: &k} }
func iStep(i int) Step    { return Step{Index: &i} }

func (s Step) param(n int) any {
	if s.Key != nil {
		return string(*s.Key)
	}
	i := *s.Index
	if s.W && i < 0 {
		if n%2 == 0 {
			return uint64(i)
		}
		return uint(i)
	}
	n += i & 0xFFFF
	if s.U && i >= 0 {
		switch n % 6 {
		case 0:
			return uint(i)
		case 1:
			if i <= math.MaxUint8 {
				return uint8(i)
			}
		case 2:
			if i <= math.MaxUint16 {
				return uint16(i)
			}
		case 3:
			if i <= math.MaxUint32 {
				return uint32(i)
			}
		case 4:
			if i <= math.MaxUint16 {
				return namedIndexU(i)
			}
		}
		return uint64(i)
	}
	switch n % 7 {
	case 1:
		if int(int8(i)) == i {
			return int8(i)
		}
	case 2:
		if int(int16(i)) == i {
			return int16(i)
		}
	case 3:
		if int(int32(i)) == i {
			return int32(i)
		}
	case 4:
		return int64(i)
	case 5:
		return namedIndex(i)
	}
	return i
}

type (
	namedIndex  int
	namedIndexU uint16
)

func params(p []Step) []any {
	res := make([]any, len(p))
	for i, s := range p {
		res[i] = s.param(i)
	}
	return res
}

// genPath draws a path guided by the document: mostly existing, sometimes broken.
func genPath(t *rapid.T, j *J, max int, miss int) []Step {
	var p []Step
	cur := j
	if c := chainOf(j); len(c) > max+1 && chance(t, 60) { // down a deep chain
		n := len(c)
		if chance(t, 40) {
			n = in(t, 1, n)
		}
		for _, s := range c[:n] {
			if s.Index != nil {
				if le := len(cur.A); coin(t) {
					s = iStep(s.idx() - le)
				}
				s.U = chance(t, 30)
			}
			p = append(p, s)
			cur = cur.child(s)
		}
		if miss > 0 && chance(t, 30) {
			p = append(p, genWay(t, logUniform(t, 1, 40))...)
		}
		return p
	}
	if miss > 0 && pick(t, 128) == 77 {
		for len(p) < max && cur != nil && cur.K == KObj && len(cur.O) > 0 && coin(t) {
			kv := of(t, cur.O)
			p = append(p, kStep(kv.K))
			cur = kv.V
		}
		return append(p, genWay(t, logUniform(t, 4, 80))...)
	}
	for len(p) < max {
		if cur != nil && len(p) > 0 && cur.isLeaf() && !chance(t, miss) {
			break
		}
		if len(p) > 0 && chance(t, 12) {
			break
		}
		var s Step
		switch {
		case cur != nil && cur.K == KArr && !chance(t, miss):
			n := len(cur.A)
			s = iStep(genIndexFor(t, n))
			s.U, s.W = chance(t, 30), chance(t, 3)
			i := s.idx()
			if i < 0 {
				i += n
			}
			if i >= 0 && i < n {
				cur = cur.A[i]
			} else {
				cur = nil
			}
		case cur != nil && cur.K == KObj && len(cur.O) > 0 && !chance(t, miss):
			kv := of(t, cur.O)
			s = kStep(kv.K)
			cur = kv.V
		default:
			if chance(t, 60) {
				k := genKey(t)
				s = kStep(k)
				if cur != nil && cur.K == KObj {
					cur = cur.get(k)
				} else {
					cur = nil
				}
			} else {
				s = iStep(of(t, []int{0, 0, 0, 1, -1, 2, -2, 5, -5, 1 << 30, -1 << 30, 1 << 32, -1 << 32, math.MinInt64, math.MaxInt64}))
				if cur != nil && cur.K == KObj && len(cur.O) > 0 && coin(t) { // what looks like a key
					s = iStep(likeKey(of(t, cur.O).K))
				}
				s.U = chance(t, 30)
				cur = nil
			}
		}
		p = append(p, s)
	}
	return p
}

// likeKey is the number which a key spells, or its first character, or its length.
func likeKey(k string) int {
	if i, err := strconv.Atoi(k); err == nil {
		return i
	}
	for _, r := range k {
		return int(r)
	}
	return len(k)
}

// chainOf is the path to the first leaf or empty container.
func chainOf(j *J) (p []Step) {
	for {
		switch {
		case j.K == KArr && len(j.A) > 0:
			n := 0
			for i, c := range j.A {
				if i > 8 {
					break
				}
				if !c.isLeaf() {
					n = i
					break
				}
			}
			p = append(p, iStep(n))
			j = j.A[n]
		case j.K == KObj && len(j.O) > 0:
			kv := j.O[0]
			for i, c := range j.O {
				if i > 8 {
					break
				}
				if !c.V.isLeaf() {
					kv = c
					break
				}
			}
			p = append(p, kStep(kv.K))
			j = j.get(kv.K)
		default:
			return p
		}
	}
}

// genWay draws steps which mostly make new containers.
func genWay(t *rapid.T, n int) (p []Step) {
	kind := in(t, 0, 2)
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 1 && coin(t) {
			p = append(p, kStep(of(t, commonKeys)))
		} else {
			p = append(p, iStep(0))
		}
	}
	return p
}

func genIndexFor(t *rapid.T, n int) int {
	if n > 0 && chance(t, 70) {
		return in(t, -n, n-1)
	}
	if chance(t, 25) { // an index which is valid after a careless conversion
		i := in(t, -n, n)
		return i + of(t, []int{1 << 8, -1 << 8, 1 << 16, -1 << 16, 1 << 32, -1 << 32, 1 << 31, 1 << 33, 1 << 62, -1 << 62, math.MinInt64 + n, math.MaxInt64 - n})
	}
	return of(t, []int{n, -n, n + 1, -n - 1, 0, -1, n - 1, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64})
}

// ---- the reference path semantics ----

// find follows a path; nil if there is no such value.
func (j *J) find(p []Step) *J {
	cur := j
	for _, s := range p {
		if cur == nil {
			return nil
		}
		cur = cur.child(s)
	}
	return cur
}

func (j *J) child(s Step) *J {
	if s.Key != nil {
		if j.K != KObj {
			return nil
		}
		return j.get(string(*s.Key))
	}
	if j.K != KArr {
		return nil
	}
	i := s.idx()
	if i < 0 {
		i += len(j.A)
	}
	if i < 0 || i >= len(j.A) {
		return nil
	}
	return j.A[i]
}

func pathString(p []Step) string {
	var b strings.Builder
	for _, s := range p {
		if s.Key != nil {
			fmt.Fprintf(&b, ".%q", string(*s.Key))
		} else if s.W {
			fmt.Fprintf(&b, "[%d]", uint64(*s.Index))
		} else {
			fmt.Fprintf(&b, "[%d]", *s.Index)
		}
	}
	return b.String()
}
