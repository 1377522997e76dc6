package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"maps"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- P21: values are independent of each other and of what they were made from ----

// fStep is one step on a forest: a list of values, some of which share parts.
type fStep struct {
	K string
	T int
	U int    `json:",omitempty"`
	M int    `json:",omitempty"`
	D *J     `json:",omitempty"`
	P []Step `json:",omitempty"`
	S S      `json:",omitempty"`
	N int    `json:",omitempty"` // blanks around the text
	O *Op    `json:",omitempty"`

	Opts []OptSpec `json:",omitempty"`
}

func (s fStep) String() string {
	b := fmt.Sprintf("%s of value %d", s.K, s.T)
	switch {
	case s.O != nil:
		b += ": " + s.O.String()
	case s.D != nil:
		b += " with " + s.D.String()
	case s.K == "parsebad":
		b += fmt.Sprintf(" %q", string(s.S))
	case s.K == "graft":
		b += fmt.Sprintf(" into value %d at %s", s.U, pathString(s.P))
	case len(s.P) > 0:
		b += " at " + pathString(s.P)
	}
	return b
}

type aliasCase struct {
	Steps []fStep
	Left  []*J `json:",omitempty"` // documents of which only the parts are kept
	Form  int  `json:",omitempty"`
}

// partsOf makes j in some way, and gives only its parts and its text.
//
//go:noinline
func partsOf(j *J, form int) (parts []*jv.V, models []*J, text []byte, err error) {
	src := []byte(renderPlain(j))
	var v *jv.V
	switch form {
	case 0:
		v, err = jv.Unmarshal(src)
	case 1:
		v, err = jv.UnmarshalString(string(src))
	case 2:
		v = jv.NewNull()
		err = v.UnmarshalJSON(src)
	case 3:
		v = &jv.V{}
		err = v.UnmarshalBinary(src)
	case 4:
		v, err = jv.UnmarshalNoCopy(src)
	case 5:
		v, err = jv.Import(Build(j))
	default:
		v = Build(j)
	}
	if err != nil {
		return
	}
	if text, err = v.Marshal(jv.OptSetSequence()); err != nil {
		return
	}
	var collect func(v *jv.V, j *J)
	collect = func(v *jv.V, j *J) {
		for _, kv := range j.O {
			c := v.MustGet(kv.K)
			parts, models = append(parts, c), append(models, kv.V)
			collect(c, kv.V)
		}
		for i, a := range j.A {
			c := v.MustGet(i)
			parts, models = append(parts, c), append(models, a)
			collect(c, a)
		}
	}
	collect(v, j)
	return
}

// checkLeft keeps parts of values which are garbage themselves.
func checkLeft(c aliasCase, st *Stat) error {
	st.Label("parts only")
	var parts []*jv.V
	var models []*J
	var texts [][]byte
	var was []string
	for i, j := range c.Left {
		p, m, text, err := partsOf(j, (c.Form+i)%7)
		if err != nil {
			return errf("making %v: %v", j, err)
		}
		texts, was = append(texts, text), append(was, string(text))
		for k := range p { // leaves only, or all
			if c.Form%2 == 0 || m[k].isLeaf() {
				parts, models = append(parts, p[k]), append(models, m[k])
			}
		}
	}
	for round := 0; round < 3; round++ {
		runtime.GC()
		time.Sleep(time.Millisecond)
		for _, j := range c.Left {
			decoy := jArr(jStr(strings.Repeat("~", len(renderPlain(j))-4)))
			for form := 0; form < 7; form++ {
				if _, _, _, err := partsOf(decoy, form); err != nil {
					return errf("making %v: %v", decoy, err)
				}
			}
		}
		for i, p := range parts {
			if err := expectV("a part of a value which is garbage", p, models[i], cmpOpt{}); err != nil {
				return err
			}
		}
		for i, text := range texts {
			if string(text) != was[i] {
				return errf("the text %q becomes %q", was[i], text)
			}
		}
	}
	st.NT()
	return nil
}

const maxForest = 9

var opKinds = []string{"set", "set", "append", "prepend", "before", "after", "delete", "delete"}

// modelStep applies the effect of a step on the models. ok is false if the step does
// not apply.
func modelStep(f []*J, s fStep) (g []*J, e errClass, ok bool) {
	if s.K != "parse" && s.K != "nocopy" && s.K != "parsebad" && s.K != "go" {
		if s.T < 0 || s.T >= len(f) || s.U < 0 || s.U >= len(f) {
			return f, 0, false
		}
	}
	grow := func(j *J) []*J {
		if len(f) >= maxForest {
			return f
		}
		return append(f, j)
	}
	switch s.K {
	case "parse", "nocopy", "go":
		return grow(s.D.clone()), eNone, true
	case "copy":
		switch { // the same pointer in two places makes two copies
		case s.M < 4:
			return grow(f[s.T].clone()), eNone, true
		case f[s.T].size() > 100:
			return f, 0, false
		case s.M == 4:
			return grow(jArr(f[s.T].clone(), f[s.T].clone())), eNone, true
		default:
			return grow(jObj(KV{"X", f[s.T].clone()}, KV{"Y", jArr(f[s.T].clone(), f[s.T].clone())})), eNone, true
		}
	case "twice":
		if f[s.T].size() > 60 {
			return f, 0, false
		}
		if s.M == 0 {
			return grow(jArr(f[s.T], f[s.T], f[s.T])), eNone, true
		} else if s.M == 1 {
			return grow(jArr(jArr(), f[s.T], f[s.T], jObj(KV{"a", f[s.T]}))), eNone, true
		}
		return grow(jObj(KV{"a", f[s.T]}, KV{"b", f[s.T]}, KV{"A", f[s.T]})), eNone, true
	case "handle":
		x := f[s.T].find(s.P)
		if x == nil || len(s.P) == 0 {
			return f, 0, false
		}
		return grow(x), eNone, true
	case "op":
		if f[s.T].clone().sizeOK() != nil {
			return f, 0, false
		}
		o := *s.O
		e, _ := mApply(f[s.T].clone(), &o, nil)
		if e == eNone {
			mApply(f[s.T], &o, nil)
		}
		return f, e, true
	case "graft":
		if s.T == s.U || len(s.P) == 0 || shares(f[s.T], f[s.U]) {
			return f, 0, false
		}
		e := mSet(f[s.U].clone(), s.P, f[s.T])
		if e == eNone {
			e = mSet(f[s.U], s.P, f[s.T])
		}
		return f, e, true
	case "unjson":
		*f[s.T] = *s.D.clone()
		return f, eNone, true
	}
	return f, eNone, true
}

func (j *J) sizeOK() error {
	if j.size() > 300 {
		return errf("too big")
	}
	return nil
}

// shares tells whether two models have a node in common.
func shares(a, b *J) (res bool) {
	seen := map[*J]bool{}
	a.walk(func(x *J, _ int) { seen[x] = true })
	b.walk(func(x *J, _ int) { res = res || seen[x] })
	return
}

func genAlias(t *rapid.T) aliasCase {
	var c aliasCase
	o := docOpt{depth: 2}
	if rarely(t, 300) {
		for n := in(t, 1, 6); n > 0; n-- {
			l := genStr(t)
			c.Left = append(c.Left, jArr(genDoc(t, o), jStr(l), jObj(KV{l, jStr(l)})))
		}
		c.Form = pick(t, 14)
		return c
	}
	var f []*J
	large := pick(t, 100) == 0
	n := in(t, 3, of(t, []int{6, 12, 25}))
	for i := 0; i < n; i++ {
		s := fStep{}
		k := pick(t, 31)
		if len(f) == 0 {
			k = 0
		} else {
			s.T = pick(t, len(f))
		}
		switch {
		case k < 3:
			s.K, s.M = of(t, []string{"parse", "parse", "nocopy", "go", "go"}), pick(t, 4)
			if s.K == "go" {
				s.M = pick(t, 10)
			}
			d := o
			d.root = of(t, []Kind{KObj, KObj, KArr, 0})
			s.D = genDoc(t, d)
			if s.K == "parse" && large {
				s.N = logUniform(t, 1000, 70000)
				if coin(t) {
					s.N = -s.N
				}
			}
			if s.K == "go" && chance(t, 30) { // the same thing twice
				switch twin := s.D.clone(); pick(t, 4) {
				case 0:
					s.D = jArr(s.D, twin)
				case 1:
					s.D = jObj(KV{"a", s.D}, KV{"b", twin})
				case 2:
					s.D = jObj(KV{"a", s.D}, KV{"b", jObj(KV{"c", jArr(twin, jNull())})})
				default:
					s.D = jArr(s.D, jArr(twin, jArr(twin.clone())))
				}
			}
		case k < 6:
			s.K, s.M = "copy", of(t, []int{0, 1, 2, 3, 0, 1, 2, 3, 4, 5})
		case k < 9:
			s.K = "handle"
			s.P = genPath(t, f[s.T], 3, 0)
			if len(s.P) == 0 {
				continue
			}
		case k < 18:
			s.K = "op"
			op := genOp(t, f[s.T], opKinds, o)
			op.Bad = 0
			if op.V != nil && op.V.isLeaf() && chance(t, 8) {
				op.N = in(t, 2, 70)
			}
			s.O = &op
		case k < 20:
			s.K, s.U = "graft", pick(t, len(f))
			s.P = genSetPath(t, f[s.U], genKey)
		case k < 22:
			s.K = "marshal"
			s.Opts = genOpts(t, optKinds, 2, f[s.T])
			s.M = pick(t, 2)
		case k < 23:
			s.K = "unjson"
			s.D = genDoc(t, o)
			s.M = pick(t, 2)
		case k < 24:
			s.K = "parsebad"
			s.S = S(of(t, []string{"[1,2,{\"a\":[\"xyz\",", "{\"a\":\"\\ud800\"}", "[[[[1]]]", "{\"k\":{\"a\":tru}}", "[\"aaaaaaaaaaaaaaaa\",\"\\x\"]", "{\"\\u0041\":\"\\n\\n", "[1] x"}))
			s.M = pick(t, 2)
		case k < 26:
			s.K, s.M = "ranges", pick(t, 3)
		case k < 27:
			s.K, s.M = "bytes", pick(t, 3)
		case k < 28:
			s.K = "caseless"
		case k < 29:
			s.K, s.M = "twice", pick(t, 3)
		case k < 30:
			s.K = "miss"
			s.M = pick(t, 6)
		default:
			s.K = "text"
		}
		var ok bool
		f, _, ok = modelStep(f, s)
		if ok {
			c.Steps = append(c.Steps, s)
		}
	}
	return c
}

// mutable is a Go value whose import is j, and a function which overwrites all of it.
// Equal parts are the same pointer.
func mutable(j *J) (x any, scribble func()) { return sharing{}.mutable(j) }

// sharing has the Go values made so far.
type sharing map[string]any

func (sh sharing) mutable(j *J) (x any, scribble func()) {
	key := renderPlain(j)
	if x, ok := sh[key]; ok {
		return x, func() {}
	}
	defer func() { sh[key] = x }()
	switch j.K {
	case KStr:
		if n, err := b64(j.T); err == nil && len(n) > 0 {
			return n, func() {
				for i := range n {
					n[i] ^= 0xFF
				}
			}
		}
		s := j.T
		return &s, func() { s = "changed" }
	case KTrue, KFalse:
		b := j.K == KTrue
		return &b, func() { b = !b }
	case KArr:
		l := []any{}
		var all []func()
		for _, a := range j.A {
			x, f := sh.mutable(a)
			l = append(l, x)
			all = append(all, f)
		}
		return &l, func() {
			for i := range l {
				all[i]()
				l[i] = "changed"
			}
		}
	case KObj:
		m := map[string]any{}
		var all []func()
		for _, kv := range j.O {
			x, f := sh.mutable(kv.V)
			m[kv.K] = x
			all = append(all, f)
		}
		if form := len(key) % 5; form > 2 && len(m) > 0 { // a struct
			var fs []reflect.StructField
			for i, kv := range j.O {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf((*any)(nil)).Elem(), Tag: reflect.StructTag(`json:"` + kv.K + `"`)})
				if kv.K == "" || strings.Trim(kv.K, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
					fs = nil
					break
				}
			}
			if fs != nil {
				p := reflect.New(reflect.StructOf(fs))
				for i, kv := range j.O {
					if m[kv.K] != nil {
						p.Elem().Field(i).Set(reflect.ValueOf(m[kv.K]))
					}
				}
				x = p.Interface()
				if form == 4 {
					pp := reflect.New(p.Type())
					pp.Elem().Set(p)
					x = pp.Interface()
				}
				return x, func() {
					for i := range fs {
						all[i]()
						p.Elem().Field(i).Set(reflect.ValueOf("changed"))
					}
				}
			}
		} else if form == 2 {
			return &m, func() {
				for i, kv := range j.O {
					all[i]()
					m[kv.K] = "changed"
				}
				m = nil
			}
		}
		return m, func() {
			for i, kv := range j.O {
				all[i]()
				m[kv.K] = "changed"
			}
			m["changed"] = 1
		}
	}
	if j.K == KNull {
		return nil, func() {}
	}
	n := json.Number(j.T)
	return &n, func() { n = "-1" }
}

// keeper marshals as bytes which it keeps.
type keeper struct {
	b    []byte
	want string
}

type jsonKeeper struct{ *keeper }
type textKeeper struct{ *keeper }

func (k jsonKeeper) MarshalJSON() ([]byte, error) { return k.b, nil }
func (k textKeeper) MarshalText() ([]byte, error) { return k.b, nil }

// retained is a Go value which hands out bytes it keeps, and a function which checks that
// the bytes are what they were, and then overwrites them.
func retained(j *J, m int) (x any, scribble func()) {
	text := renderWith(j, &style{b: []byte{byte(m), 200, 3, 90, 17}})
	raw := json.RawMessage(text)
	k := &keeper{b: raw, want: text}
	switch {
	case j.K == KStr && m%2 == 0 && allValid(j):
		k.want = j.T
		k.b = append(make([]byte, 0, len(j.T)+8), j.T...)
		x = textKeeper{k}
	case m == 4 || m == 5:
		x = raw
	case m == 6 || m == 7:
		x = &raw
	default:
		x = jsonKeeper{k}
	}
	return x, func() {
		if string(k.b) != k.want {
			panic(fmt.Sprintf("importing %T changes its bytes from %q to %q", x, k.want, k.b))
		}
		for i := range k.b {
			k.b[i] = '7'
		}
		k.b = append(k.b[:0], "null"...)
	}
}

func b64(s string) ([]byte, error) {
	v := jv.NewString(s)
	b := v.Bytes()
	if jv.NewBytes(b).String() != s {
		return nil, errf("not base64")
	}
	return b, nil
}

type keptText struct {
	live []byte
	want string
	what string
}

func checkAlias(c aliasCase, st *Stat) error {
	if len(c.Left) > 0 {
		return checkLeft(c, st)
	}
	var f []*J
	var vs []*jv.V
	var texts []keptText
	ordered := []bool{}
	noCopy := [][2]string{}
	var kept []func() error
	for i, s := range c.Steps {
		what := fmt.Sprintf("step %d, %v", i, s)
		before := len(f)
		var self *J
		if s.K != "parse" && s.K != "nocopy" && s.K != "go" && s.K != "parsebad" && s.T < len(f) {
			self = f[s.T]
		}
		g, e, ok := modelStep(f, s)
		if !ok {
			continue
		}
		f = g
		var v *jv.V
		var err error
		if self != nil {
			v = vs[s.T]
		}
		add := func(x *jv.V, inOrder bool) {
			if len(f) > before {
				vs = append(vs, x)
				ordered = append(ordered, inOrder)
			}
		}
		st.Label(s.K)
		switch s.K {
		case "parse":
			text := renderPlain(s.D)
			if s.N > 0 {
				text += strings.Repeat(" ", s.N)
				st.Label("large text")
			} else if s.N < 0 {
				text = strings.Repeat("\n", -s.N) + text
				st.Label("large text")
			}
			var x *jv.V
			switch s.M {
			case 0, 1:
				buf := []byte(text)
				if s.M == 0 {
					x, err = jv.Unmarshal(buf)
				} else {
					x = jv.MustUnmarshal(buf)
				}
				if string(buf) != text {
					return errf("%s: Unmarshal changes its input to %q", what, buf)
				}
				for k := range buf {
					buf[k] = '9'
				}
			case 2:
				str := strings.Clone(text)
				x, err = jv.UnmarshalString(str)
				noCopy = append(noCopy, [2]string{str, text})
			default:
				str := strings.Clone(text)
				x = jv.MustUnmarshalString(str)
				noCopy = append(noCopy, [2]string{str, text})
			}
			if err != nil {
				return errf("%s: %v", what, err)
			}
			add(x, true)
		case "nocopy":
			x, err := jv.UnmarshalNoCopy([]byte(renderPlain(s.D)))
			if err != nil {
				return errf("%s: %v", what, err)
			}
			add(x, true)
		case "go":
			x, scribble := mutable(s.D)
			var w *jv.V
			if s.M >= 4 {
				x, scribble = retained(s.D, s.M)
			}
			if s.M%2 == 0 {
				w, err = jv.Import(x)
			} else {
				w = jv.NewArray()
				w.MustAppend(x).InTheEnd()
				if w = w.MustGet(0); isNotExist(w) {
					err = errf("not appended")
				}
			}
			if err != nil {
				return errf("%s: %v", what, err)
			}
			scribble()
			add(w, false)
		case "copy":
			var x *jv.V
			switch s.M {
			case 0:
				x, err = jv.Import(v)
			case 1:
				x = jv.New(v)
			case 2:
				x = jv.New([]*jv.V{v}).MustGet(0)
			case 3:
				x = jv.New(struct{ X *jv.V }{v}).MustGet("X")
			case 4:
				x = jv.New([]*jv.V{v, v})
			default:
				x = jv.New(struct {
					X *jv.V
					Y any
				}{v, [2]*jv.V{v, v}})
			}
			if err != nil {
				return errf("%s: %v", what, err)
			}
			if x == v {
				return errf("%s: returns the value itself", what)
			}
			add(x, ordered[s.T])
		case "twice":
			var x *jv.V
			switch s.M {
			case 0:
				x = jv.NewArray()
				for n := 0; n < 3; n++ {
					x.MustAppend(v).InTheEnd()
				}
			case 1:
				x = jv.NewArray()
				x.MustAppend(jv.NewArray()).InTheEnd()
				x.MustAppend(v).InTheEnd()
				x.MustInsert(v).After(0)
				x.MustSet(v).At(3, "a")
			default:
				x = jv.NewObject()
				x.MustSet(v).At("a")
				x.MustSet(v).At("b")
				x.MustSet(v).At("A")
			}
			add(x, ordered[s.T])
		case "handle":
			ps := params(s.P)
			x, err := v.Get(ps[0], ps[1:]...)
			if err != nil {
				return errf("%s: %v", what, err)
			}
			add(x, ordered[s.T])
		case "op":
			h := v
			if len(s.O.H) > 0 {
				ps := params(s.O.H)
				if h, err = v.Get(ps[0], ps[1:]...); e == -1 && err != nil {
					continue
				} else if err != nil {
					return errf("%s: handle: %v", what, err)
				}
			}
			_, _, _, err := s.O.apply(h)
			if !s.O.Must {
				if cerr := e.check(err); cerr != nil {
					return errf("%s: %v", what, cerr)
				}
			}
		case "graft":
			ps := params(s.P)
			ret, err := vs[s.U].Set(v).At(ps[0], ps[1:]...)
			if cerr := e.check(err); cerr != nil {
				return errf("%s: %v", what, cerr)
			}
			if e == eNone {
				st.Label("grafted")
				if ret != v {
					return errf("%s: sets another value than the given one", what)
				}
				if !ordered[s.T] {
					ordered[s.U] = false
				}
				for k := range f { // whoever shares parts with an unordered value
					for l := range f {
						if !ordered[l] && shares(f[k], f[l]) {
							ordered[k] = false
						}
					}
				}
			}
		case "unjson":
			buf := []byte(renderPlain(s.D))
			if s.M == 0 {
				err = v.UnmarshalJSON(buf)
			} else {
				err = v.UnmarshalBinary(buf)
			}
			if err != nil {
				return errf("%s: %v", what, err)
			}
			for k := range buf {
				buf[k] = '0'
			}
		case "marshal":
			opts := options(s.Opts)
			b, err := v.Marshal(opts...)
			if err != nil {
				return errf("%s: %v", what, err)
			}
			if s.M == 0 {
				texts = append(texts, keptText{b, string(b), what})
			} else {
				for k := range b {
					b[k] = '#'
				}
				b = b[:cap(b)]
				for k := range b {
					b[k] = '#'
				}
			}
		case "text":
			str, err := v.MarshalString()
			if err != nil {
				return errf("%s: %v", what, err)
			}
			noCopy = append(noCopy, [2]string{str, strings.Clone(str)})
			str = v.String()
			noCopy = append(noCopy, [2]string{str, strings.Clone(str)})
		case "parsebad":
			x, err := jv.Unmarshal([]byte(s.S))
			if err == nil || !isNotExist(x) {
				return errf("%s: %v, %v", what, x, err)
			}
			if s.M == 1 { // what is returned with an error is good for nothing
				x.MustSetInt(1).At("a")
				if _, err := x.Set(1).At("a"); err == nil {
					return errf("%s: the value returned with the error can be set", what)
				}
			}
		case "ranges":
			wantL, wantM := slices.Clone(v.ForRangeArr()), maps.Clone(v.ForRangeObj())
			l, m := v.ForRangeArr(), v.ForRangeObj()
			switch s.M {
			case 0:
				for k := range l {
					l[k] = jv.NewString("changed")
				}
				_ = append(l, jv.NewString("changed"))
				for k := range m {
					m[k] = jv.NewString("changed")
				}
				if m != nil {
					m["changed"] = jv.NewInt(1)
				}
			case 1:
				for k := range l {
					l[k] = nil
				}
				for k := range m {
					delete(m, k)
				}
			default:
				kept = append(kept, func() error {
					if !slices.Equal(l, wantL) || !maps.Equal(m, wantM) {
						return errf("the children returned by %s became %v, %v, were %v, %v", what, l, m, wantL, wantM)
					}
					return nil
				})
			}
			if l, m = v.ForRangeArr(), v.ForRangeObj(); !slices.Equal(l, wantL) || !maps.Equal(m, wantM) {
				return errf("%s: after changing the results, they are %v, %v, were %v, %v", what, l, m, wantL, wantM)
			}
			v.RangeObjects(func(_ string, x *jv.V) bool { x = nil; return true })
		case "bytes":
			all := []*jv.V{v}
			for _, x := range v.ForRangeArr() {
				all = append(all, x)
			}
			for _, x := range v.ForRangeObj() {
				all = append(all, x)
			}
			var grown [][]byte
			for n, x := range all { // what is appended to one result is nobody else's
				grown = append(grown, append(x.Bytes(), byte(n), 'x'))
				none := append(x.MustGet("no such key").Bytes(), byte(n))
				if x.IsString() {
					grown[n] = append(x.Bytes(), byte(n), 'x')
				} else if len(none) != 1 || none[0] != byte(n) {
					return errf("%s: Bytes of nothing is not empty", what)
				}
				b, _ := v.GetBytes("no such key")
				_ = append(b, "changed"...)
			}
			for n, b := range grown {
				if len(b) < 2 || b[len(b)-2] != byte(n) || b[len(b)-1] != 'x' {
					return errf("%s: what was appended to the result of Bytes became %q", what, b)
				}
			}
			for _, x := range all {
				b, want := x.Bytes(), x.Bytes()
				if s.M == 2 {
					kept = append(kept, func() error {
						if !bytes.Equal(b, want) {
							return errf("the bytes returned by %s became %q, were %q", what, b, want)
						}
						return nil
					})
					continue
				}
				old := bytes.Clone(want)
				for k := range b {
					b[k] ^= 0x55
				}
				if !bytes.Equal(want, old) {
					return errf("%s: two results of Bytes are the same memory", what)
				}
				if got := x.Bytes(); !bytes.Equal(got, old) {
					return errf("%s: after changing the result of Bytes, it is %q, was %q", what, got, old)
				}
			}
		case "caseless":
			v.Caseless().MustGet("a")
			v.Caseless().MustGet("no such key", 0)
		case "miss":
			m := v.MustGet("no such key", 0, "x")
			m2, err := v.Get("no such key")
			if err == nil || !isNotExist(m) || !isNotExist(m2) {
				return errf("%s: found a key which is not there", what)
			}
			switch s.M {
			case 0:
				_ = m.UnmarshalJSON([]byte("[1]"))
				_ = m2.UnmarshalJSON([]byte("[1]"))
			case 1:
				m.MustSetInt(1).At("x")
				m2.MustSetInt(1).At("x")
			case 2:
				m.MustAppend(1).InTheEnd()
				m2.MustAppend(1).InTheBeginning("y")
			case 3:
				_ = m.Delete("x")
				_ = m2.Delete(0)
			case 4:
				x := jv.MustUnmarshal([]byte("{"))
				_ = x.UnmarshalJSON([]byte("{\"a\":1}"))
				x = jv.New(make(chan int))
				_ = x.UnmarshalJSON([]byte("{\"a\":1}"))
			}
			if x := v.MustGet("no such key"); !isNotExist(x) {
				return errf("%s: after using the missing value, it is %v", what, x)
			}
			if x := jv.MustUnmarshalString("[1"); !isNotExist(x) {
				return errf("%s: malformed input gives %v", what, x)
			}
			if x := jv.New(make(chan int)); !isNotExist(x) {
				return errf("%s: an unsupported value gives %v", what, x)
			}
		}
		if s.K == "copy" || s.K == "handle" || s.K == "graft" || len(f) > 1 && s.K == "op" {
			st.NT()
		}
		for k := range f {
			if err := expectV(fmt.Sprintf("%s: value %d", what, k), vs[k], f[k], cmpOpt{order: ordered[k]}); err != nil {
				return err
			}
		}
		for _, k := range texts {
			if string(k.live) != k.want {
				return errf("%s: the result of %s became %q, was %q", what, k.what, k.live, k.want)
			}
		}
		for _, k := range kept {
			if err := k(); err != nil {
				return errf("%s: %v", what, err)
			}
		}
		for _, k := range noCopy {
			if k[0] != k[1] {
				return errf("%s: a string became %q, was %q", what, k[0], k[1])
			}
		}
	}
	for k := range f {
		b, err := vs[k].Marshal(jv.OptUTF8())
		if err != nil {
			return errf("finally, marshaling value %d: %v", k, err)
		}
		if got, err := ParseStrict(b); err != nil {
			return errf("finally, value %d is %q: %v", k, b, err)
		} else if err := diffJ(got, f[k], cmpOpt{}); err != nil {
			return errf("finally, value %d: %v", k, err)
		}
		for _, kv := range f[k].O {
			x, err := vs[k].Caseless().Get(kv.K)
			if err != nil {
				return errf("finally, caseless Get(%q) of value %d: %v", kv.K, k, err)
			}
			if err := expectV(fmt.Sprintf("finally, caseless Get(%q) of value %d", kv.K, k), x, kv.V, cmpOpt{}); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(spec[aliasCase]{
		ID: "P21", Quick: 24000,
		Rule:   "a history over a forest of values: parsing (with the input overwritten afterwards), copies by Import, handles by Get, mutations, one value set into another or several times into one, UnmarshalJSON in place, marshaled texts and slices which are overwritten or kept, imports of Go values which are changed afterwards; after every step all values, handles and kept results are compared with a model in which exactly the handles and the values set share nodes; non-trivial: a copy, handle or sharing was made, or a value was changed while others exist",
		Assume: []string{"the input of UnmarshalNoCopy is left alone, as documented", "values which contain themselves are not generated"},
		Gen:    genAlias, Check: checkAlias,
	})
}
