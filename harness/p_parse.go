package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- P01: parsing valid JSON ----

type parseCase struct {
	Docs  []*J
	Style S
	Wrap  int `json:",omitempty"` // levels of arrays around the first document
	Fill  int `json:",omitempty"` // elements added around the first document
	Long  int `json:",omitempty"` // first parse 2 GB in values of about this length
}

// longDone is what the process has parsed before, if anything. It is part of the cases
// which follow.
var longDone int

// long parses more than 2 GB in total, after which the parser stops estimating how many
// values a text of some length has.
func (c parseCase) long() error {
	if c.Long == 0 || longDone != 0 {
		return nil
	}
	longDone = c.Long
	elem := `"` + strings.Repeat("x", c.Long) + `",`
	n := 1 + 1<<21/len(elem)
	b := []byte("[" + strings.Repeat(elem, n) + "0]")
	end := time.Now().Add(15 * time.Second)
	for total := 0; total < 1<<31 && time.Now().Before(end); total += len(b) {
		v, err := jv.UnmarshalNoCopy(b)
		if err != nil || v.Len() != n+1 || v.MustGet(n-1).String() != elem[1:len(elem)-2] {
			return errf("an array of %d strings of %d bytes is read as %d elements, error %v", n, c.Long, v.Len(), err)
		}
	}
	return nil
}

func genParse(t *rapid.T) parseCase {
	o := defDoc()
	o.dup = true
	o.depth = of(t, []int{2, 3, 3, 4, 6})
	c := parseCase{Style: S(genStyle(t))}
	if rarely(t, 400) {
		c.Docs = []*J{genHuge(t, hugeArrays, hugeObjects, hugeTexts, hugeOthers)}
		if k := c.Docs[0].huge; (k.Kind == "nest" || k.Kind == "chain") && coin(t) {
			c.Docs[0] = (&hugeSpec{k.Kind, logUniform(t, 1000, 40000), k.Salt}).doc()
		}
		return c
	}
	c.Long = longDone
	if longDone == 0 && rarely(t, 40000) {
		c.Long = of(t, []int{100, 1000, 1 << 20})
	}
	n := of(t, []int{1, 1, 1, 2, 3})
	for i := 0; i < n; i++ {
		c.Docs = append(c.Docs, genDoc(t, o))
	}
	if chance(t, 5) {
		c.Wrap = in(t, 1, 300)
	}
	if chance(t, 4) {
		c.Fill = in(t, 1, 400)
	}
	return c
}

func rawJSON(b []byte) []byte { return append([]byte(nil), b...) }

// entryPoints parses b in all the ways the library offers.
func entryPoints(b []byte) (names []string, vals []*jv.V, errs []error) {
	add := func(n string, v *jv.V, err error) {
		names = append(names, n)
		vals = append(vals, v)
		errs = append(errs, err)
	}
	v, err := jv.Unmarshal(rawJSON(b))
	add("Unmarshal", v, err)
	v, err = jv.UnmarshalString(string(b))
	add("UnmarshalString", v, err)
	v, err = jv.UnmarshalNoCopy(rawJSON(b))
	add("UnmarshalNoCopy", v, err)
	w := &jv.V{}
	err = w.UnmarshalJSON(rawJSON(b))
	add("UnmarshalJSON", w, err)
	w = &jv.V{}
	err = w.UnmarshalBinary(rawJSON(b))
	add("UnmarshalBinary", w, err)
	w = jv.NewObject(jv.M{"old": []int{1, 2}})
	err = w.UnmarshalJSON(rawJSON(b))
	add("UnmarshalJSON into a used value", w, err)
	w = jv.NewString("old")
	err = w.UnmarshalBinary(rawJSON(b))
	add("UnmarshalBinary into a used value", w, err)
	return
}

var guards = []string{"0", "\"", "]}", " ", "\\", "\x00", "e5", ",1", "x", "}\n", "//", "\x80", "ull"}

// checkGuard parses b as a part of a longer buffer: what comes behind it is neither read
// nor written, and what comes before it stays as well unless the call may use the bytes.
func checkGuard(b []byte, names []string, vals []*jv.V, errs []error, salt int) error {
	g := guards[salt%len(guards)]
	for k, f := range map[string]func(p []byte) (*jv.V, error){
		"Unmarshal":       jv.Unmarshal,
		"UnmarshalString": func(p []byte) (*jv.V, error) { return jv.UnmarshalString(string(p)) },
		"UnmarshalNoCopy": jv.UnmarshalNoCopy,
		"UnmarshalJSON":   func(p []byte) (*jv.V, error) { v := &jv.V{}; return v, v.UnmarshalJSON(p) },
		"UnmarshalBinary": func(p []byte) (*jv.V, error) { v := &jv.V{}; return v, v.UnmarshalBinary(p) },
		"MustUnmarshal": func(p []byte) (*jv.V, error) {
			v := jv.MustUnmarshal(p)
			if isNotExist(v) {
				return v, errors.New("not there")
			}
			return v, nil
		},
		"MustUnmarshalNoCopy": func(p []byte) (*jv.V, error) {
			v := jv.MustUnmarshalNoCopy(p)
			if isNotExist(v) {
				return v, errors.New("not there")
			}
			return v, nil
		},
	} {
		buf := []byte(g + string(b) + g + g)
		p := buf[len(g) : len(g)+len(b)]
		v, err := f(p)
		want := g + string(b) + g + g
		if strings.Contains(k, "NoCopy") {
			want = g + string(p) + g + g
		}
		if (err == nil) != (errs[0] == nil) {
			return errf("%s of %q between %q: %v, but %s alone: %v", k, b, g, err, names[0], errs[0])
		}
		if string(buf) != want {
			return errf("%s of %q between %q: the buffer is now %q", k, b, g, buf)
		}
		if err != nil {
			continue
		}
		if !strings.Contains(k, "NoCopy") {
			for i := range buf {
				buf[i] = 'Z'
			}
		} else {
			copy(buf[len(g)+len(b):], "ZZZZ")
			copy(buf[:len(g)], "ZZZZ")
		}
		x, err := Read(v)
		if err != nil {
			return errf("%s of %q between %q: %v", k, b, g, err)
		}
		y, err := Read(vals[0])
		if err != nil {
			return err
		}
		if err := diffJ(x, y, cmpOpt{order: true}); err != nil {
			return errf("%s of %q between %q: %v, but %s alone: %v: %v", k, b, g, x, names[0], y, err)
		}
	}
	return nil
}

func checkParse(c parseCase, st *Stat) error {
	type kept struct {
		v    *jv.V
		want *J
		what string
	}
	var all []kept
	if c.Long != 0 {
		if longDone == 0 {
			st.Label("2 GB parsed before")
		}
		if err := c.long(); err != nil {
			return err
		}
		st.Label("after 2 GB")
	}
	if len(c.Docs) > 0 && c.Docs[0].huge != nil {
		return checkParseHuge(c, st)
	}
	for i, d := range c.Docs {
		text := renderWith(d, &style{b: []byte(c.Style)})
		want := d.normalize()
		if i == 0 && c.Fill > 0 {
			var sb strings.Builder
			sb.WriteByte('[')
			w := jArr()
			for k := 0; k < c.Fill; k++ {
				fmt.Fprintf(&sb, `%d,"%d",`, k, k)
				w.A = append(w.A, jInt(k), jStr(fmt.Sprint(k)))
			}
			sb.WriteString(text + "]")
			w.A = append(w.A, want)
			text, want = sb.String(), w
		}
		if i == 0 && c.Wrap > 0 {
			text = strings.Repeat("[", c.Wrap) + text + strings.Repeat("]", c.Wrap)
			for k := 0; k < c.Wrap; k++ {
				want = jArr(want)
			}
		}
		if len(c.Style) > 0 {
			text = blanks[int(c.Style[0])%len(blanks)] + text + blanks[int(c.Style[len(c.Style)-1])%len(blanks)]
		}
		if !d.isLeaf() && d.size() >= 3 {
			st.NT()
			st.Label("container of 3 or more nodes")
		}
		if want.size() < d.size() {
			st.Label("duplicate keys")
		}
		if strings.Contains(text, "\\u") {
			st.Label("\\u escapes")
		}
		if d.depth() >= 3 {
			st.Label("depth 3 or more")
		}
		b := []byte(text)
		names, vals, errs := entryPoints(b)
		for k, v := range vals {
			if errs[k] != nil {
				return errf("%s rejects %q: %v", names[k], text, errs[k])
			}
			if err := expectV(names[k]+" of "+clip(text), v, want, cmpOpt{order: true}); err != nil {
				return err
			}
			all = append(all, kept{v, want, names[k] + " of " + clip(text)})
		}
		if i == 0 && len(b)%3 == 0 {
			if err := checkGuard(b, names, vals, errs, len(b)/3); err != nil {
				return err
			}
		}
		for name, v := range map[string]*jv.V{
			"MustUnmarshal":       jv.MustUnmarshal(rawJSON(b)),
			"MustUnmarshalString": jv.MustUnmarshalString(text),
			"MustUnmarshalNoCopy": jv.MustUnmarshalNoCopy(rawJSON(b)),
		} {
			if err := expectV(name+" of "+clip(text), v, want, cmpOpt{order: true}); err != nil {
				return err
			}
			all = append(all, kept{v, want, name})
		}
		// the copying entry points neither change nor keep their input
		in := rawJSON(b)
		v1, err := jv.Unmarshal(in)
		if err != nil {
			return err
		}
		var v2 jv.V
		if err := v2.UnmarshalJSON(in); err != nil {
			return err
		}
		var v3 jv.V
		if err := v3.UnmarshalBinary(in); err != nil {
			return err
		}
		if !bytes.Equal(in, b) {
			return errf("parsing %q changes the input into %q", text, in)
		}
		for k := range in {
			in[k] = 'Z'
		}
		all = append(all, kept{v1, want, "Unmarshal, input overwritten later"}, kept{&v2, want, "UnmarshalJSON, input overwritten later"},
			kept{&v3, want, "UnmarshalBinary, input overwritten later"})
		// through encoding/json
		var h struct{ X, Y *jv.V }
		var hb bytes.Buffer
		hb.WriteString(`{"X":`)
		hb.Write(b)
		hb.WriteString(`,"Y":[`)
		hb.Write(b)
		hb.WriteString(`]}`)
		if err := json.Unmarshal(hb.Bytes(), &h); err != nil {
			return errf("json.Unmarshal into *V of %q: %v", hb.Bytes(), err)
		}
		all = append(all, kept{h.Y, jArr(want), "a *V field of json.Unmarshal"})
		if want.K == KNull { // encoding/json does not call the method
			if h.X != nil {
				return errf("json.Unmarshal of null into a *V field: %v", h.X)
			}
		} else {
			all = append(all, kept{h.X, want, "a *V field of json.Unmarshal"})
		}
	}
	// values parsed earlier stay as they are whatever was parsed later
	for _, k := range all {
		if err := expectV("later, "+k.what, k.v, k.want, cmpOpt{order: true}); err != nil {
			return err
		}
	}
	return nil
}

func checkParseHuge(c parseCase, st *Stat) error {
	j := c.Docs[0]
	what := j.huge.String()
	st.NT()
	st.Label("huge")
	text := renderPlain(j)
	if len(c.Style) > 0 && c.Style[0]%2 == 1 {
		text = renderWith(j, &style{b: []byte(c.Style)})
	}
	b := []byte(text)
	names, vals, errs := entryPoints(b)
	for k, v := range vals {
		if errs[k] != nil {
			return errf("%s rejects %s: %v", names[k], what, errs[k])
		}
		if v.ValueType() == jv.Array && v.Len() != len(j.A) || v.ValueType() == jv.Object && v.Len() != len(j.O) {
			return errf("%s of %s has the length %d", names[k], what, v.Len())
		}
	}
	for _, k := range []int{j.huge.Salt % len(vals), (j.huge.Salt + 3) % len(vals)} {
		if err := expectV(names[k]+" of "+what, vals[k], j, cmpOpt{order: true}); err != nil {
			return err
		}
		for x, y := vals[k], j; !y.isLeaf(); { // down the last one of each level
			if y.K == KArr && len(y.A) > 0 {
				n := len(y.A)
				for _, i := range []int{0, n - 1, -1, -n, n / 2, 256 % n, 65535 % n} {
					e, err := x.Get(i)
					if err != nil {
						return errf("%s of %s: Get(%d): %v", names[k], what, i, err)
					}
					if err := expectKind(e, y.A[(i+n)%n]); err != nil {
						return errf("%s of %s: Get(%d): %v", names[k], what, i, err)
					}
				}
				for _, i := range []int{n, -n - 1, n + 65536} {
					if _, err := x.Get(i); err == nil {
						return errf("%s of %s: Get(%d) succeeds for %d elements", names[k], what, i, n)
					}
				}
				x, y = x.MustGet(-1), y.A[n-1]
			} else if y.K == KObj && len(y.O) > 0 {
				n := len(y.O)
				for _, i := range []int{0, n - 1, n / 2, 256 % n, 65535 % n} {
					e, err := x.Get(y.O[i].K)
					if err == nil {
						err = expectKind(e, y.O[i].V)
					}
					if err != nil {
						return errf("%s of %s: Get of member %d: %v", names[k], what, i, err)
					}
				}
				if _, err := x.Get("no such key"); err == nil {
					return errf("%s of %s: a missing key is found", names[k], what)
				}
				x, y = x.MustGet(y.O[0].K), y.O[0].V
			} else {
				break
			}
		}
	}
	return nil
}

// expectKind looks at a value without going into it.
func expectKind(v *jv.V, j *J) error {
	switch {
	case j.K == KArr && v.IsArray() && v.Len() == len(j.A),
		j.K == KObj && v.IsObject() && v.Len() == len(j.O),
		j.K == KStr && v.IsString() && v.String() == j.T,
		j.K == KNum && v.IsNumber() && v.String() == j.T,
		j.K == KTrue && v.IsBoolean() && v.Bool(),
		j.K == KFalse && v.IsBoolean() && !v.Bool(),
		j.K == KNull && v.IsNull():
		return nil
	}
	return errf("got a %v of length %d, want %s", v.ValueType(), v.Len(), tail(j.String(), 100))
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...", s[:300])
	}
	return fmt.Sprintf("%q", s)
}

// ---- P02: malformed input ----

type badCase struct {
	Text  S
	Prev  *J
	Class string
	Times int `json:",omitempty"` // repeat the text
}

var tokens = []string{
	"{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"b\":", "1", "-", "0", "1.5", "1e3", "true", "false", "null", " ", "\n", "\t", "\r", "\b", "\f", "\v", "\x00", "\u00a0", "\ufeff",
	"\\", "\\u", "\\u0041", "\\ud83d", "\\ude00", "\\ud83d\\ude00", "\\'", "\\x41", "'", "'a'", "nul", "tru", "fals", "True", "NaN", "Infinity", "-Infinity", "+1", ".5", "5.", "01", "-01", "00", "1e", "1e+", "1.e1", "0x10", "1_000", "--1",
	"//c", "/*c*/", ";", "undefined", "\xff", "\xc0\x80", "\xe4\xb8", "\xed\xa0\x80", "é", "😀", "a", "#", "\"\\\"", "\"\x01\"", "\"\x7f\"", "-0", "1E400", "18446744073709551616", "-9223372036854775809", "nulll", "truefalse", "1 2",
}

func genBad(t *rapid.T) badCase {
	c := badCase{}
	o := docOpt{depth: 2}
	c.Prev = genDoc(t, docOpt{depth: 1})
	mode := in(t, 0, 9)
	base := func() string { return renderWith(genDoc(t, o), &style{b: genStyle(t)}) }
	switch {
	case mode < 4: // mutations of a valid text
		c.Class = "mutated"
		b := []byte(base())
		n := of(t, []int{1, 1, 1, 2, 3})
		for i := 0; i < n; i++ {
			p := in(t, 0, len(b))
			switch pick(t, 7) {
			case 6: // a run of blanks, often with something odd among them
				for i := 0; i < 3 && (p == 0 || !bytes.ContainsRune([]byte("{}[],:"), rune(b[p-1]))); i++ {
					p = in(t, 0, len(b))
				}
				n := logUniform(t, 1, 70)
				run := bytes.Repeat([]byte(of(t, []string{" ", " ", "\t", "\n", "\r", "\r\n", " \n"})), n)
				if chance(t, 75) {
					run[pick(t, len(run))] = of(t, []byte{0, 0, '\f', '\v', 0x1F, 0x7F, 0x80, 0x85, 0xA0, '_', '.', 1, 8, 0x10, '!', '`', ',', '-'})
				}
				b = append(b[:p:p], append(run, b[p:]...)...)
			case 0: // delete a byte
				if p < len(b) {
					b = append(b[:p:p], b[p+1:]...)
				}
			case 1: // truncate
				b = b[:p]
			case 2: // insert a token
				b = append(b[:p:p], append([]byte(of(t, tokens)), b[p:]...)...)
			case 3: // replace a byte
				if p < len(b) {
					b[p] = byte(in(t, 0, 255))
				}
			case 4: // replace a byte by a token
				if p < len(b) {
					b = append(b[:p:p], append([]byte(of(t, tokens)), b[p+1:]...)...)
				}
			default: // append
				b = append(b, of(t, tokens)...)
			}
		}
		c.Text = S(b)
	case mode < 7: // soup of tokens
		c.Class = "tokens"
		n := in(t, 0, 7)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(of(t, tokens))
		}
		c.Text = S(sb.String())
	case mode < 8: // one bad leaf inside a good document
		c.Class = "bad leaf"
		sb := base()
		leaf := of(t, tokens)
		switch pick(t, 3) {
		case 0:
			c.Text = S("[" + sb + "," + leaf + "]")
		case 1:
			c.Text = S(`{"x":` + leaf + `,"y":` + sb + `}`)
		default:
			c.Text = S(`{"x":[{"y":` + leaf + `}]}`)
		}
	case mode < 9: // strings
		c.Class = "string"
		n := in(t, 0, 5)
		var sb strings.Builder
		sb.WriteByte('"')
		for i := 0; i < n; i++ {
			switch pick(t, 4) {
			case 0:
				sb.WriteString(fmt.Sprintf("\\u%s", of(t, []string{"0041", "004", "00g1", "D800", "DBFF", "DC00", "DFFF", "d83d\\ude00", "D83D\\u0041", "D83D\\n", "D83Dx", "d83d\\ud83d", "", "+123", "-123", "0x41", "FFFF", "fffe", "00 1"})))
			case 1:
				sb.WriteString("\\" + string(rune(in(t, 0x20, 0x7E))))
			case 2:
				sb.WriteString(string(drawBytes(t, 3)))
			default:
				sb.WriteRune(genRune(t))
			}
		}
		if !chance(t, 15) {
			sb.WriteByte('"')
		}
		c.Text = S(sb.String())
		if coin(t) {
			c.Text = `{` + c.Text + `:` + c.Text + `}`
		}
	default:
		c.Class = "bytes"
		c.Text = S(drawBytes(t, 8))
	}
	return c
}

const (
	vAccept  = "must accept"
	vReject  = "must reject"
	vEither  = "unspecified"
	vRelaxed = "tolerated relaxation"
)

// classify decides what the specification says about a text.
func classify(b []byte) (verdict string, want *J) {
	j, err := ParseStrict(b)
	if err == nil {
		if allInRange(j) {
			return vAccept, j
		}
		return vReject, nil
	}
	p := &parser{b: b, lenient: true}
	j, err = p.document()
	if p.lone {
		return vEither, nil // lone surrogate escapes
	}
	if err == nil && allInRange(j) {
		return vRelaxed, nil
	}
	return vReject, nil
}

func checkBad(c badCase, st *Stat) error {
	b := []byte(c.Text)
	if c.Times > 1 {
		b = bytes.Repeat(b, c.Times)
		if _, err := jv.Unmarshal(b); err == nil {
			return errf("%d times %q is accepted", c.Times, c.Text)
		}
		return nil
	}
	verdict, want := classify(b)
	st.Label(c.Class + ": " + verdict)
	if verdict == vReject {
		st.NT()
	}
	in := rawJSON(b)
	_, _ = jv.Unmarshal(in)
	if !bytes.Equal(in, b) {
		return errf("Unmarshal changes its input %q into %q", b, in)
	}
	names, vals, errs := entryPoints(b)
	for k := range names {
		used := strings.Contains(names[k], "used")
		if (errs[k] == nil) != (errs[0] == nil) {
			return errf("%q: %s: %v, but %s: %v", b, names[0], errs[0], names[k], errs[k])
		}
		v := vals[k]
		if errs[k] != nil {
			if verdict == vAccept {
				return errf("%s rejects the valid text %q: %v", names[k], b, errs[k])
			}
			if v == nil {
				return errf("%s of %q: a nil *V comes with the error", names[k], b)
			}
			if !used && !isNotExist(v) {
				return errf("%s of %q: fails with a value of type %v", names[k], b, v.ValueType())
			}
			continue
		}
		switch verdict {
		case vReject:
			return errf("%s accepts the malformed text %q as %s", names[k], b, v.MustMarshalString())
		case vAccept:
			if err := expectV(fmt.Sprintf("%s of %q", names[k], b), v, want.normalize(), cmpOpt{order: true}); err != nil {
				return err
			}
		}
		if isNotExist(v) {
			return errf("%s of %q: no error but a value which does not exist", names[k], b)
		}
		m, err := v.Marshal()
		if err != nil {
			return errf("%s accepts %q but it cannot be marshaled: %v", names[k], b, err)
		}
		if !json.Valid(m) {
			return errf("%s accepts %q and marshals it as the invalid %q", names[k], b, m)
		}
		if j, err := Read(v); err != nil {
			return err
		} else if j.has(func(x *J) bool { return x.K == KStr && !utf8.ValidString(x.T) }) {
			return errf("%s accepts %q and gives invalid UTF-8: %v", names[k], b, j)
		}
	}
	if err := checkGuard(b, names, vals, errs, len(b)+len(c.Class)); err != nil {
		return err
	}
	for name, v := range map[string]*jv.V{
		"MustUnmarshal":       jv.MustUnmarshal(rawJSON(b)),
		"MustUnmarshalString": jv.MustUnmarshalString(string(b)),
		"MustUnmarshalNoCopy": jv.MustUnmarshalNoCopy(rawJSON(b)),
	} {
		if v == nil {
			return errf("%s of %q is nil", name, b)
		}
		if isNotExist(v) != (errs[0] != nil) {
			return errf("%s of %q: type %v while Unmarshal says %v", name, b, v.ValueType(), errs[0])
		}
	}
	if errs[0] != nil && c.Prev != nil {
		// a failed decoding leaves the receiver as it was
		for name, f := range map[string]func(*jv.V, []byte) error{"UnmarshalJSON": (*jv.V).UnmarshalJSON, "UnmarshalBinary": (*jv.V).UnmarshalBinary} {
			v := Build(c.Prev)
			if err := f(v, rawJSON(b)); err == nil {
				return errf("%s: accepts %q this time", name, b)
			}
			if err := expectV(fmt.Sprintf("receiver after failed %s of %q", name, b), v, c.Prev, cmpOpt{order: true}); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- P03: round trip ----

type rtCase struct {
	Doc   *J
	Opts  []OptSpec
	Built bool // made by constructors rather than by the parser
	Style S
}

func genRT(t *rapid.T) rtCase {
	c := rtCase{Built: coin(t), Style: S(genStyle(t))}
	o := defDoc()
	if c.Built {
		o.badUTF8 = chance(t, 30)
		o.special = chance(t, 30)
	}
	o.depth = of(t, []int{2, 3, 3, 4, 6})
	c.Doc = dropAmbiguous(genDoc(t, o))
	if rarely(t, 1500) {
		c.Doc = genHuge(t, hugeArrays, hugeObjects, hugeTexts, hugeOthers)
	}
	c.Opts = genOpts(t, append([]string{"raw"}, optKinds...), 4, c.Doc)
	if o.special && !chance(t, 15) {
		c.Opts = append(c.Opts, genOpt(t, []string{"nanNull", "nanStr", "nanNaN"}, nil), genOpt(t, []string{"infNull", "infStr", "infInf"}, nil))
	}
	return c
}

func checkRT(c rtCase, st *Stat) error {
	var v *jv.V
	if c.Built {
		v = Build(c.Doc)
	} else {
		var err error
		v, err = jv.UnmarshalString(renderWith(c.Doc, &style{b: []byte(c.Style)}))
		if err != nil {
			return errf("valid text of %v is rejected: %v", c.Doc, err)
		}
	}
	cf := config(c.Opts)
	if len(c.Opts) > 0 && c.Doc.size() >= 3 {
		st.NT()
	}
	if c.Doc.huge != nil {
		st.Label("huge")
	}
	if c.Built {
		st.Label("built")
	} else {
		st.Label("parsed")
	}
	if err := checkMarshal(v, c.Doc, c.Opts, nil, cf, false); err != nil {
		return err
	}
	if err := expectV("value after marshaling", v, c.Doc, cmpOpt{order: true}); err != nil {
		return err
	}
	want, werr := cf.resolve(sanitize(c.Doc))
	if werr != nil {
		st.Label("unsupported float")
		return nil
	}
	b, err := v.Marshal(options(c.Opts)...)
	if err != nil {
		return err
	}
	w, err := jv.Unmarshal(b)
	if err != nil {
		return errf("%v marshals into %q, which is rejected: %v", c.Doc, b, err)
	}
	if err := expectV(fmt.Sprintf("round trip through %q", b), w, want, cmpOpt{}); err != nil {
		return err
	}
	if !cf.omit && !c.Doc.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf }) && allValid(c.Doc) {
		st.Label("Equal after round trip")
		if !v.Equal(w) || !w.Equal(v) {
			return errf("%v differs from itself after a round trip through %q", c.Doc, b)
		}
	}
	b2, err := w.Marshal(options(c.Opts)...)
	if err != nil {
		return errf("second marshaling: %v", err)
	}
	if cf.omit { // an option may have turned NaN into null
		return nil
	}
	return sameMeaning(b, b2, (cf.less != "" || len(cf.seq) > 0) && allValid(c.Doc))
}

func allValid(j *J) bool {
	return !j.has(func(x *J) bool {
		if x.K == KStr && !utf8.ValidString(x.T) {
			return true
		}
		for _, kv := range x.O {
			if !utf8.ValidString(kv.K) {
				return true
			}
		}
		return false
	})
}

func init() {
	register(spec[parseCase]{
		ID:    "P01",
		Rule:  "a case is up to three generated documents (nested, boundary numbers, keys from a colliding pool incl. duplicates, any Unicode), rendered with drawn blanks and escapes, some wrapped in up to 300 arrays or beside up to 800 elements, parsed by every entry point and read back through the API against the reference model; non-trivial: a container of at least three nodes",
		Quick: 12000,
		Gen:   genParse, Check: checkParse,
	})
	register(spec[badCase]{
		ID:    "P02",
		Rule:  "a case is a text made by mutating, truncating or splicing valid JSON, or by drawing tokens, bad escapes or bytes; the oracle is a reference recogniser with the library's tolerated relaxations; non-trivial: a text which must be rejected",
		Quick: 200000,
		Gen:   genBad, Check: checkBad,
		Assume: []string{"missing, repeated or trailing commas, the escape \\', raw control characters in strings and \\b as a blank may be accepted or rejected; so may lone surrogate escapes", "nesting is bounded: the parser is recursive without a limit of depth"},
	})
	register(spec[rtCase]{
		ID:    "P03",
		Rule:  "a case is a generated document (parsed or built, some with invalid UTF-8, NaN or infinities) and up to six marshal options; the text must be valid JSON meaning the same, and survive parsing and marshaling again; non-trivial: at least one option and three nodes",
		Quick: 48000,
		Gen:   genRT, Check: checkRT,
	})
}
