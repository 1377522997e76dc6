package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// hugeSpec describes a document of a size which is worth neither drawing nor writing
// down node by node.
type hugeSpec struct {
	Kind string
	N    int
	Salt int
}

func (h *hugeSpec) String() string { return fmt.Sprintf("huge(%s,%d,%d)", h.Kind, h.N, h.Salt) }

func (p *parser) huge() (*J, error) {
	end := strings.IndexByte(string(p.b[p.i:]), ')')
	if end < 0 {
		return nil, p.errf("bad huge value")
	}
	f := strings.Split(string(p.b[p.i:p.i+end]), ",")
	p.i += end + 1
	if len(f) != 3 {
		return nil, p.errf("bad huge value")
	}
	n, err1 := strconv.Atoi(f[1])
	salt, err2 := strconv.Atoi(f[2])
	if err1 != nil || err2 != nil {
		return nil, p.errf("bad huge value")
	}
	return (&hugeSpec{f[0], n, salt}).doc(), nil
}

var hugeArrays = []string{"ints", "mixed", "same", "rows", "texts"}
var hugeObjects = []string{"keys", "keysdown", "keysmix", "hashes"}
var hugeTexts = []string{"ascii", "escaped", "bmp", "astral", "controls", "slashes"}
var hugeOthers = []string{"nest", "chain", "digits", "key"}

// genHuge draws a huge document of one of the given kinds.
func genHuge(t *rapid.T, kinds ...[]string) *J {
	var all []string
	for _, k := range kinds {
		all = append(all, k...)
	}
	h := &hugeSpec{Kind: of(t, all), Salt: in(t, 0, 99)}
	h.N = of(t, []int{257, 511, 512, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000, 100000})
	if h.Kind == "nest" || h.Kind == "chain" {
		h.N = of(t, []int{150, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 3000, 5000})
		if coin(t) {
			h.N = logUniform(t, 130, 9900) // encoding/json has a limit of 10000
		}
	} else if chance(t, 30) {
		h.N = logUniform(t, 300, 100000)
	}
	if h.Kind == "hashes" { // others every time
		h.Salt = in(t, 0, 1<<30)
	}
	return h.doc()
}

// rarely is true once in n draws (and shrinks to false).
func rarely(t *rapid.T, n int) bool {
	if n > 2048 { // in is uniform for small ranges only
		return rarely(t, 2048) && rarely(t, n/2048)
	}
	return in(t, 0, n-1) == n-1
}

// doc makes the model of the document.
func (h *hugeSpec) doc() *J {
	j := h.make()
	j.huge = h
	return j
}

func (h *hugeSpec) make() *J {
	n, salt := h.N, h.Salt
	mixed := func(i int) *J {
		switch (i + salt) % 11 {
		case 0:
			return jNull()
		case 1:
			return jBool(i%3 == 0)
		case 2:
			return jNum(fmt.Sprintf("%d.5", i))
		case 3:
			return jStr(fmt.Sprintf("s%d\n", i))
		case 4:
			return jArr()
		case 5:
			return jArr(jInt(i), jStr("é"))
		case 6:
			return jObj()
		case 7:
			return jObj(KV{"k", jInt(-i)}, KV{"", jNull()})
		case 8:
			return jStr("")
		}
		return jInt(i - n/2)
	}
	switch h.Kind {
	case "ints":
		j := jArr()
		for i := 0; i < n; i++ {
			j.A = append(j.A, jInt((i*7919+salt)%(n+5)))
		}
		return j
	case "same":
		j := jArr()
		for i := 0; i < n; i++ {
			j.A = append(j.A, jInt(salt%3))
		}
		return j
	case "mixed":
		j := jArr()
		for i := 0; i < n; i++ {
			j.A = append(j.A, mixed(i))
		}
		return j
	case "rows":
		j := jArr()
		for i := 0; i < n/4; i++ {
			j.A = append(j.A, jObj(KV{"a", jInt(i % 97)}, KV{"b", jArr(jStr(strconv.Itoa(i)))}))
		}
		return j
	case "texts":
		j := jArr()
		for i, total := 0, 0; total < 4*n; i++ {
			l := (i*i + salt) % 700
			j.A = append(j.A, jStr(strings.Repeat(string(rune('a'+i%26)), l)+strconv.Itoa(i)))
			total += l + 5
		}
		return j
	case "keys", "keysdown", "keysmix":
		j := jObj()
		for i := 0; i < n; i++ {
			k := i
			if h.Kind == "keysdown" {
				k = n - i
			} else if h.Kind == "keysmix" {
				k = i * 7919 % 100003 // distinct for i < 100003
			}
			j.O = append(j.O, KV{fmt.Sprintf("k%06d", k), mixed(i)})
		}
		return j
	case "hashes":
		j := jObj()
		for i, x := 0, uint64(salt); i < n; i++ {
			x += 0x9E3779B97F4A7C15
			z := (x ^ x>>30) * 0xBF58476D1CE4E5B9
			z = (z ^ z>>27) * 0x94D049BB133111EB
			z ^= z >> 31
			j.O = append(j.O, KV{fmt.Sprintf("%012x", z>>16), jStr(fmt.Sprintf("%08x", uint32(z*31)))})
		}
		return j
	case "ascii", "escaped", "bmp", "astral", "controls", "slashes":
		var b strings.Builder
		b.WriteString(strings.Repeat("x", salt%4)) // the boundary at each offset
		for i := 0; i < n; i++ {
			switch h.Kind {
			case "ascii":
				b.WriteByte('a' + byte(i%26))
			case "escaped":
				b.WriteByte("\"\\ab"[i%4])
			case "bmp":
				b.WriteRune('一' + rune(i%5000))
			case "astral":
				b.WriteRune('😀' + rune(i%40))
			case "controls":
				b.WriteByte(byte(i % 32))
			case "slashes":
				b.WriteByte("/<>&%"[i%5])
			}
		}
		return jStr(b.String())
	case "key":
		return jObj(KV{strings.Repeat("k", n), jInt(1)}, KV{strings.Repeat("k", n) + "2", jInt(2)}, KV{"k", jInt(3)})
	case "nest":
		j := jInt(salt)
		for i := 0; i < n; i++ {
			j = jArr(j)
		}
		return j
	case "chain":
		j := jInt(salt)
		for i := 0; i < n; i++ {
			if (i+salt)%3 == 0 {
				j = jArr(jNull(), j)
			} else {
				j = jObj(KV{"c", j}, KV{"d", jInt(i)})
			}
		}
		return j
	case "digits":
		return jNum("0." + strings.Repeat("3", n) + strconv.Itoa(salt))
	}
	harnessBug("unknown kind of huge document %q", h.Kind)
	return nil
}

// getHuge is get by way of an index, which may be out of date.
func (j *J) getHuge(k string) *J {
	if i, ok := j.idx[k]; ok && i < len(j.O) && j.O[i].K == k {
		return j.O[i].V
	}
	for i := range j.O {
		if j.O[i].K != k {
			continue
		}
		j.idx = make(map[string]int, len(j.O))
		for n := len(j.O) - 1; n >= 0; n-- {
			j.idx[j.O[n].K] = n
		}
		return j.O[i].V
	}
	return nil
}

// oneOff is a copy of a huge document with one change.
func oneOff(t *rapid.T, j *J) *J {
	c := j.clone()
	switch c.K {
	case KArr:
		n := len(c.A)
		if n == 0 {
			return jArr(jNull())
		}
		i := of(t, []int{0, n - 1, n / 2, 65535, 65536, 4096})
		if i >= n {
			i = n - 1
		}
		switch pick(t, 3) {
		case 0:
			c.A = c.A[:n-1]
		case 1:
			c.A[i] = jStr("off")
		default:
			if x := c.A[i]; x.isLeaf() {
				c.A[i] = jArr(x)
			} else {
				c.A[i] = oneOff(t, x)
			}
		}
	case KObj:
		n := len(c.O)
		if n == 0 {
			return jNull()
		}
		i := of(t, []int{0, n - 1, n / 2, 65535, 65536, 4096})
		if i >= n {
			i = n - 1
		}
		switch pick(t, 4) {
		case 0:
			c.O = c.O[:n-1]
		case 1:
			c.O[i].K += "x"
		case 2: // the order does not matter
			c.O[i], c.O[0] = c.O[0], c.O[i]
		default:
			if x := c.O[i].V; x.isLeaf() {
				c.O[i].V = jArr(x)
			} else {
				c.O[i].V = oneOff(t, x)
			}
		}
	case KStr:
		b := []byte(c.T)
		switch {
		case len(b) > 0 && coin(t):
			c.T = c.T[:len(b)-1]
		case coin(t):
			c.T += "."
		default:
			c.T = c.T[:len(b)/2] + "." + c.T[len(b)/2:]
		}
		if !allValid(c) {
			c.T += "?"
			c.T = strings.ToValidUTF8(c.T, "")
		}
	case KNum:
		c.T += "1"
	}
	return c
}
