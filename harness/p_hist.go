package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- operations on a value ----

// Op is one operation of a history.
type Op struct {
	K    string // set, append, prepend, before, after, delete, cdelete and cget (caseless), dup (go on with a copy), load (UnmarshalJSON into the value), touch (only reads)
	H    []Step `json:",omitempty"` // handle: the operation applies to this descendant
	P    []Step `json:",omitempty"`
	V    *J     `json:",omitempty"`
	F    int    // how the value is given
	PF   int    // how the path is given
	Must bool   `json:",omitempty"`
	Bad  int    `json:",omitempty"` // illegal value: 1 nil *V, 2 a *V which does not exist, 3 an unsupported type
	Own  bool   `json:",omitempty"` // the given *V is the one which is at From already
	From []Step `json:",omitempty"`
	N    int    `json:",omitempty"` // repeat that often (0: once)
	Seq  bool   `json:",omitempty"` // with the numbers 1, 2, ... instead of V
	// the Setter, Appender or Inserter is the one of the operation before, used once more
	Again bool `json:",omitempty"`
	// it is made before the operation before is done
	Held bool `json:",omitempty"`

	src *jv.V // the *V at From
	c   *J    // the model of the value to give
	s   any   // the Setter, Appender or Inserter
	sc  *jv.V // and the *V it was made of, if it was
}

// verb names the kind of operation which takes a value, or is empty.
func (o Op) verb() string {
	switch o.K {
	case "set":
		if o.Must && o.F%2 == 1 { // the reverse spelling: At(path).Set(value)
			return ""
		}
		return "Set"
	case "append", "prepend":
		return "Append"
	case "before", "after":
		return "Insert"
	}
	return ""
}

// usage is what Again needs to know about the operation before.
type usage struct {
	verb string
	must bool
	v    *jv.V
	s    any
	sc   *jv.V
	root *J
	c    *J
	V    *J
}

// used is what the operation leaves for the next one, or nil.
func (o Op) used(e errClass, h *jv.V, root *J) *usage {
	if o.verb() == "" || o.N > 1 || o.Bad > 0 || o.c == nil || e != eNone && (len(o.H) > 0 || o.Own || o.Again) {
		return nil
	}
	if h != nil && o.sc == nil && !o.c.isLeaf() { // if the two places share it then is not specified
		return nil
	}
	return &usage{o.verb(), o.Must, h, o.s, o.sc, root, o.c, o.V}
}

func (o Op) String() string {
	s := o.K
	if len(o.H) > 0 {
		s = "on " + pathString(o.H) + ": " + s
	}
	if o.Again {
		return "once more: " + s + " at " + pathString(o.P)
	}
	if o.Held {
		s = "held: " + s
	}
	if o.Must {
		s = "must " + s
	}
	if o.Own {
		s += " the value at " + pathString(o.From)
	} else if o.V != nil {
		s += " " + o.V.String()
	}
	if o.N > 0 {
		s += fmt.Sprintf(" %d times", o.N)
	}
	if o.Bad > 0 {
		s += fmt.Sprintf(" illegal value %d", o.Bad)
	}
	return s + " at " + pathString(o.P)
}

// ---- the reference semantics ----

// outside is the error for an index beyond the array.
func (s Step) outside() errClass {
	if s.W {
		return eAny
	}
	return eOutOfRange
}

func mSet(v *J, p []Step, c *J) errClass {
	s := p[0]
	if v.isLeaf() || (v.K == KObj) != (s.Key != nil) {
		return eAny
	}
	if v.K == KObj {
		k := string(*s.Key)
		if len(p) == 1 {
			v.set(k, c)
			return eNone
		}
		if ch := v.get(k); ch != nil {
			return mSet(ch, p[1:], c)
		}
		ch, e := mNew(p[1:], c)
		if e == eNone {
			v.set(k, ch)
		}
		return e
	}
	i, n := s.idx(), len(v.A)
	at := i
	if i < 0 {
		at += n
	}
	switch {
	case at >= 0 && at < n:
		if len(p) == 1 {
			v.A[at] = c
			return eNone
		}
		return mSet(v.A[at], p[1:], c)
	case i == n:
		ch := c
		if len(p) > 1 {
			var e errClass
			if ch, e = mNew(p[1:], c); e != eNone {
				return e
			}
		}
		v.A = append(v.A, ch)
		return eNone
	}
	return s.outside()
}

// mNew creates the container which p needs.
func mNew(p []Step, c *J) (*J, errClass) {
	if p[0].Key != nil {
		j := jObj()
		return j, mSet(j, p, c)
	}
	if p[0].idx() != 0 {
		return nil, p[0].outside()
	}
	j := jArr()
	return j, mSet(j, p, c)
}

func mAppend(v *J, p []Step, c *J, front bool) errClass {
	target := v
	if len(p) == 0 {
		if v.K != KArr {
			return eNotArray
		}
	} else {
		var e errClass
		target, e = modelGet(v, p)
		switch {
		case e == eNotFound:
			target = jArr()
			if e := mSet(v, p, target); e != eNone {
				return e
			}
		case e != eNone:
			return e
		case target.K != KArr:
			return eType
		}
	}
	if front {
		target.A = append([]*J{c}, target.A...)
	} else {
		target.A = append(target.A, c)
	}
	return eNone
}

func mInsert(v *J, p []Step, c *J, after bool) errClass {
	last := p[len(p)-1]
	if len(p) == 1 {
		if v.K != KArr {
			return eNotArray
		}
	} else {
		var e errClass
		if v, e = modelGet(v, p[:len(p)-1]); e != eNone {
			return e
		}
		if v.K != KArr {
			return eType
		}
	}
	if last.Key != nil {
		return eAny
	}
	i, n := last.idx(), len(v.A)
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return last.outside()
	}
	if after {
		i++
	}
	v.A = append(v.A, nil)
	copy(v.A[i+1:], v.A[i:])
	v.A[i] = c
	return eNone
}

func mDelete(v *J, p []Step) errClass {
	last := p[len(p)-1]
	if len(p) > 1 {
		var e errClass
		if v, e = modelGet(v, p[:len(p)-1]); e != eNone {
			return e
		}
	}
	if v.isLeaf() || (v.K == KObj) != (last.Key != nil) {
		return eAny
	}
	if v.K == KObj {
		if !v.del(string(*last.Key)) {
			return eNotFound
		}
		return eNone
	}
	i, n := last.idx(), len(v.A)
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return last.outside()
	}
	v.A = append(append([]*J{}, v.A[:i]...), v.A[i+1:]...)
	return eNone
}

// outcome is one acceptable result of a caseless lookup.
type outcome struct {
	path []Step // exact path of the value
	j    *J
	e    errClass
}

// cFind gives the acceptable results of following p without regard to case.
func cFind(j *J, p []Step) []outcome {
	if len(p) == 0 {
		return []outcome{{j: j}}
	}
	s := p[0]
	var res []outcome
	next := func(s Step, c *J) {
		for _, o := range cFind(c, p[1:]) {
			o.path = append([]Step{s}, o.path...)
			res = append(res, o)
		}
	}
	switch {
	case j.isLeaf():
		return []outcome{{e: eType}}
	case (j.K == KObj) != (s.Key != nil):
		return []outcome{{e: eAny}}
	case j.K == KArr:
		c := j.child(s)
		if c == nil {
			return []outcome{{e: eOutOfRange}}
		}
		next(s, c)
		return res
	}
	k := string(*s.Key)
	if c := j.get(k); c != nil {
		next(s, c)
		return res
	}
	for _, kv := range j.O {
		if strings.ToLower(kv.K) == strings.ToLower(k) {
			next(kStep(kv.K), kv.V)
		}
	}
	if res == nil {
		return []outcome{{e: eNotFound}}
	}
	return res
}

// mApply changes the model; e is what the operation promises, ret the value it returns.
func mApply(all *J, o *Op, last *usage) (e errClass, root *J) {
	root = all
	if len(o.H) > 0 {
		if root = root.find(o.H); root == nil {
			return -1, nil
		}
	}
	if o.Again {
		root = last.root
	}
	return mApplyAt(all, root, o, last), root
}

func mApplyAt(all, root *J, o *Op, last *usage) errClass {
	if o.Bad > 0 {
		if o.Bad < 3 {
			return eUninit
		}
		return eAny
	}
	for i := 1; i < o.N; i++ {
		o1 := *o
		o1.N = 0
		if o.Seq {
			o1.V = jInt(i)
		}
		if e := mApply1(all, root, &o1, nil); e != eNone {
			return e
		}
	}
	if o.Seq {
		o.V = jInt(o.N)
	}
	return mApply1(all, root, o, last)
}

// own is the model of the value which is given by its place, or nil if there is none, or if
// it would be put into itself.
func (o Op) own(all, root *J) *J {
	c := all.find(o.From)
	if c == nil {
		return nil
	}
	return o.notInside(root, c)
}

// notInside is c, or nil if it would be put into itself.
func (o Op) notInside(root, c *J) *J {
	inside := map[*J]bool{}
	c.walk(func(x *J, _ int) { inside[x] = true })
	n := len(o.P)
	if o.K != "append" && o.K != "prepend" {
		n--
	}
	for i := 0; i <= n; i++ {
		if x := root.find(o.P[:i]); x != nil && inside[x] {
			return nil
		}
	}
	return c
}

func mApply1(all, root *J, o *Op, last *usage) errClass {
	var c *J
	if o.Again {
		if c = o.notInside(root, last.c); c == nil {
			return -1
		}
	} else if o.Own {
		if c = o.own(all, root); c == nil {
			return -1
		}
	} else if o.V != nil {
		c = o.V.clone()
		c.f32 = o.Bad == 0 && o.F%4 == 2 && !o.Own && c.K == KNum
	}
	o.c = c
	switch o.K {
	case "set":
		return mSet(root, o.P, c)
	case "append":
		return mAppend(root, o.P, c, false)
	case "prepend":
		return mAppend(root, o.P, c, true)
	case "before":
		return mInsert(root, o.P, c, false)
	case "after":
		return mInsert(root, o.P, c, true)
	case "delete":
		return mDelete(root, o.P)
	case "load":
		*root = *c
		return eNone
	case "dup", "touch":
		return eNone
	}
	harnessBug("operation %q", o.K)
	return 0
}

// touch only reads, by methods which may build something internal.
func (o Op) touch(v *jv.V, m *J) error {
	switch o.F % 8 {
	case 0:
		for _, kv := range m.O {
			v.Caseless().MustGet(strings.ToUpper(kv.K))
		}
		v.Caseless().MustGet("Zz", 0)
	case 1:
		v.MustMarshal(jv.OptDefaultStringSequence(), jv.OptIndent("", " "))
		v.MustMarshal(jv.OptKeySequence([]string{"b", "a"}), jv.OptOmitNull(true))
	case 2:
		_ = v.String()
		_ = fmt.Sprint(v, *v)
	case 3:
		if !v.Equal(v) {
			return errf("not equal to itself")
		}
		v.Equal(jv.NewObject())
		v.Equal(jv.NewArray())
	case 4:
		var x any
		if err := v.Export(&x); err != nil {
			return errf("Export: %v", err)
		}
	case 5:
		n := 0
		v.RangeObjects(func(string, *jv.V) bool { n++; return n < 2 })
		v.RangeArray(func(int, *jv.V) bool { n++; return n < 2 })
		v.RangeObjectsBySetSequence(func(string, *jv.V) bool { n++; return n < 2 })
	case 6:
		for range v.IterObjects() {
		}
		for range v.IterArray() {
		}
		v.ForRangeObj()
		v.ForRangeArr()
	default:
		v.MustMarshal(jv.OptSetSequence())
		if _, err := jv.Import(v); err != nil {
			return errf("Import: %v", err)
		}
	}
	return nil
}

// load replaces the content of v.
func (o Op) load(v *jv.V) error {
	text := renderPlain(o.V)
	if o.Bad > 0 {
		text = text[:len(text)-1]
	}
	if o.F%2 == 0 {
		return v.UnmarshalJSON([]byte(text))
	}
	return v.UnmarshalBinary([]byte(text))
}

// dup gives an independent copy.
func (o Op) dup(v *jv.V) (*jv.V, error) {
	switch o.F % 4 {
	case 0:
		return jv.Import(v)
	case 1:
		b, err := v.Marshal(jv.OptSetSequence())
		if err != nil {
			return nil, err
		}
		return jv.Unmarshal(b)
	case 2:
		c := &jv.V{}
		b, err := v.Marshal(jv.OptSetSequence())
		if err == nil {
			err = c.UnmarshalBinary(b)
		}
		return c, err
	}
	c := jv.New(v)
	if c.ValueType() == jv.NotExist {
		return nil, errf("New makes nothing of it")
	}
	return c, nil
}

// ---- giving values in many forms ----

// native is a Go value whose import is j, or ok is false.
func native(j *J, n int) (x any, ok bool) {
	switch j.K {
	case KNull:
		return []any{nil, (*int)(nil), (map[string]any)(nil), (*struct{})(nil)}[n%2], true
	case KTrue, KFalse:
		b := j.K == KTrue
		if n%2 == 1 {
			return &b, true
		}
		return b, true
	case KStr:
		if n%3 == 1 {
			return &j.T, true
		}
		if n%3 == 2 {
			return namedKey(j.T), true
		}
		return j.T, true
	case KNaN:
		return math.NaN(), true
	case KPInf:
		return math.Inf(1), true
	case KNInf:
		return math.Inf(-1), true
	case KNum:
		if i, err := strconv.ParseInt(j.T, 10, 64); err == nil && strconv.FormatInt(i, 10) == j.T {
			switch {
			case n%4 == 1 && i >= 0:
				return uint64(i), true
			case n%4 == 2 && i >= math.MinInt8 && i <= math.MaxInt8:
				return int8(i), true
			case n%4 == 3 && i > -1e15 && i < 1e15 && i != 0:
				return float64(i), true
			}
			return i, true
		}
		if u, err := strconv.ParseUint(j.T, 10, 64); err == nil && strconv.FormatUint(u, 10) == j.T {
			return u, true
		}
		if f, err := strconv.ParseFloat(j.T, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == j.T && math.Abs(f) >= 1e-6 && math.Abs(f) < 1e18 {
			return f, true
		}
		return json.Number(j.T), true
	case KArr:
		res := []any{}
		for _, a := range j.A {
			x, ok := native(a, n)
			if !ok {
				x = Build(a)
			}
			res = append(res, x)
		}
		return res, true
	case KObj:
		if len(j.O) > 1 {
			return nil, false
		}
		res := map[string]any{}
		for _, kv := range j.O {
			x, ok := native(kv.V, n)
			if !ok {
				x = Build(kv.V)
			}
			res[kv.K] = x
		}
		return res, true
	}
	return nil, false
}

// typedArg finds a SetXxx, AppendXxx or InsertXxx for j.
func typedArg(j *J, n int, insert bool) (name string, args []any, ok bool) {
	switch j.K {
	case KNull:
		return "Null", nil, true
	case KTrue, KFalse:
		return "Bool", []any{j.K == KTrue}, true
	case KStr:
		if b, err := base64.StdEncoding.DecodeString(j.T); !insert && err == nil && n%2 == 1 && base64.StdEncoding.EncodeToString(b) == j.T {
			if len(b) == 0 && n%4 == 3 {
				b = nil
			}
			return "Bytes", []any{b}, true
		}
		return "String", []any{j.T}, true
	case KArr:
		return "Array", nil, len(j.A) == 0
	case KObj:
		return "Object", nil, len(j.O) == 0
	case KNaN:
		return "Float64", []any{math.NaN()}, true
	case KPInf:
		return "Float32", []any{float32(math.Inf(1))}, true
	case KNInf:
		return "Float64", []any{math.Inf(-1)}, true
	}
	if i, err := strconv.ParseInt(j.T, 10, 64); err == nil && strconv.FormatInt(i, 10) == j.T {
		switch n % 8 {
		case 1:
			return "Int", []any{int(i)}, true
		case 2:
			if int64(int32(i)) == i {
				return "Int32", []any{int32(i)}, true
			}
		case 3:
			if i >= 0 {
				return "Uint", []any{uint(i)}, true
			}
		case 4:
			if i >= 0 && int64(uint32(i)) == i {
				return "Uint32", []any{uint32(i)}, true
			}
		case 5:
			if i >= 0 {
				return "Uint64", []any{uint64(i)}, true
			}
		case 6:
			if i > -1e6 && i < 1e6 && i != 0 {
				return "Float64", []any{float64(i)}, true
			}
		case 7:
			if i > -1e6 && i < 1e6 && i != 0 {
				return "Float32", []any{float32(i)}, true
			}
		}
		return "Int64", []any{i}, true
	}
	if u, err := strconv.ParseUint(j.T, 10, 64); err == nil && strconv.FormatUint(u, 10) == j.T {
		if n%2 == 0 {
			return "Uint", []any{uint(u)}, true
		}
		return "Uint64", []any{u}, true
	}
	if f, err := strconv.ParseFloat(j.T, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == j.T && math.Abs(f) >= 1e-6 && math.Abs(f) < 1e18 {
		if f32 := float32(f); n%2 == 0 && strconv.FormatFloat(float64(f32), 'f', -1, 32) == j.T {
			return "Float32", []any{f32}, true
		}
		return "Float64", []any{f}, true
	}
	return "", nil, false
}

// start calls v.Set(x), v.MustSetInt(x) and so on; the child is returned if it is a *V.
func start(v *jv.V, verb string, o Op) (res any, child *jv.V) {
	call := func(name string, args ...any) any {
		m := reflect.ValueOf(v).MethodByName(name)
		if !m.IsValid() {
			harnessBug("no method %s", name)
		}
		in := make([]reflect.Value, len(args))
		for i, a := range args {
			if a == nil {
				in[i] = reflect.Zero(m.Type().In(i))
			} else {
				in[i] = reflect.ValueOf(a)
			}
		}
		return m.Call(in)[0].Interface()
	}
	if o.Must {
		verb = "Must" + verb
	}
	if o.Bad == 0 && o.F%4 == 2 && !o.Own {
		if name, args, ok := typedArg(o.V, o.F/4, strings.HasSuffix(verb, "Insert")); ok {
			return call(verb+name, args...), nil
		}
	}
	x, child := o.value()
	return call(verb, x), child
}

func (o Op) start(v *jv.V) (res any, child *jv.V) {
	if o.s != nil {
		return o.s, o.sc
	}
	return start(v, o.verb(), o)
}

// value is what the operation gives to the library; child if it is a *V.
func (o Op) value() (x any, child *jv.V) {
	switch o.Bad {
	case 1:
		return (*jv.V)(nil), nil
	case 2:
		return &jv.V{}, nil
	case 3:
		return []any{make(chan int), func() {}, map[float64]int{1: 2}, []any{1, make(chan int)}, complex(1, 2)}[o.F%5], nil
	}
	if o.Own {
		return o.src, o.src
	}
	switch o.F % 4 {
	case 1:
		if x, ok := native(o.V, o.F/4); ok {
			return x, nil
		}
	case 3:
		if !o.V.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf || x.K == KStr && !validUTF8(x) }) {
			child = jv.MustUnmarshalString(renderPlain(o.V))
			return child, child
		}
	}
	child = Build(o.V)
	return child, child
}

func validUTF8(j *J) bool { return allValid(j) }

// apply performs the operation on the real value.
func (o Op) apply(v *jv.V) (ret, child *jv.V, hasRet bool, err error) {
	if o.K == "set" && o.Must && o.F%2 == 1 && o.N > 1 { // one At, many Set
		ps := paramForm(o.P, o.PF)
		at := v.At(ps[0], ps[1:]...)
		for i := 1; i <= o.N; i++ {
			if o.Seq {
				o.V = jInt(i)
			}
			x, c := o.value()
			at.Set(x)
			child = c
		}
		return nil, child, false, nil
	}
	for i := 1; i < o.N; i++ {
		o1 := o
		if o.Seq {
			o1.V = jInt(i)
		}
		if ret, child, hasRet, err = o1.apply1(v); err != nil {
			return
		}
	}
	return o.apply1(v)
}

func (o Op) apply1(v *jv.V) (ret, child *jv.V, hasRet bool, err error) {
	ps := paramForm(o.P, o.PF)
	var first any
	var rest []any
	if len(ps) > 0 {
		first, rest = ps[0], ps[1:]
	}
	if len(o.P) == 0 {
		ps = nil
	}
	switch o.K {
	case "set":
		if o.Must && o.F%2 == 1 { // the reverse spelling
			x, c := o.value()
			v.At(first, rest...).Set(x)
			return nil, c, false, nil
		}
		s, c := o.start(v)
		if o.Must {
			s.(jv.MustSetter).At(first, rest...)
			return nil, c, false, nil
		}
		ret, err = s.(jv.Setter).At(first, rest...)
		return ret, c, true, err
	case "append", "prepend":
		s, c := o.start(v)
		switch {
		case o.Must && o.K == "append":
			s.(jv.MustAppender).InTheEnd(ps...)
		case o.Must:
			s.(jv.MustAppender).InTheBeginning(ps...)
		case o.K == "append":
			ret, err = s.(jv.Appender).InTheEnd(ps...)
		default:
			ret, err = s.(jv.Appender).InTheBeginning(ps...)
		}
		return ret, c, !o.Must, err
	case "before", "after":
		s, c := o.start(v)
		switch {
		case o.Must && o.K == "before":
			s.(jv.MustInserter).Before(first, rest...)
		case o.Must:
			s.(jv.MustInserter).After(first, rest...)
		case o.K == "before":
			ret, err = s.(jv.Inserter).Before(first, rest...)
		default:
			ret, err = s.(jv.Inserter).After(first, rest...)
		}
		return ret, c, !o.Must, err
	case "delete":
		if o.Must {
			v.MustDelete(first, rest...)
			return nil, nil, false, nil
		}
		return nil, nil, false, v.Delete(first, rest...)
	}
	harnessBug("operation %q", o.K)
	return nil, nil, false, nil
}

// ---- histories ----

type histCase struct {
	Doc  *J
	Form int
	Warm int `json:",omitempty"` // first read all of it in this way (see touch)
	Ops  []Op

	Raw *rawKeys `json:",omitempty"` // nothing but this
}

// rawKeys are keys which are not valid UTF-8.
type rawKeys struct {
	Keys   []S
	First  int  // so many are there when the value is first read
	Parsed bool // those come from a text
	Del    []bool
}

func genRawKeys(t *rapid.T) *rawKeys {
	r := &rawKeys{Parsed: coin(t)}
	have := map[string]bool{}
	for n := in(t, 1, 6); n > 0; n-- {
		k := of(t, clusterKeys)
		for m := in(t, 0, 2); m > 0; m-- {
			k = badBytes(t, k)
		}
		if x := of(t, []string{"", "", "z", "Z", "\u00c9"}); x != "" {
			k += x
		}
		if !have[k] {
			r.Keys = append(r.Keys, S(k))
			r.Del = append(r.Del, chance(t, 30))
			have[k] = true
		}
	}
	r.First = in(t, 0, len(r.Keys))
	return r
}

// asciiCase changes the letters of ASCII only, and leaves all other bytes alone.
func asciiCase(s string, way int) string {
	b := []byte(s)
	for i, c := range b {
		switch {
		case c >= 'a' && c <= 'z' && (way == 1 || way == 2 && i%2 == 0):
			b[i] -= 'a' - 'A'
		case c >= 'A' && c <= 'Z' && (way == 0 || way == 2 && i%2 == 1):
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

// check looks up and deletes such keys in ways which everybody takes for the same letters.
func (r *rawKeys) check() error {
	v := jv.NewObject()
	live := map[string]*jv.V{}
	if r.Parsed {
		var b strings.Builder
		b.WriteByte('{')
		for i, k := range r.Keys[:r.First] {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "\"%s\":%d", string(k), i)
		}
		b.WriteByte('}')
		x, err := jv.UnmarshalString(b.String())
		if err != nil {
			return nil // bytes which are not UTF-8 may be rejected
		}
		v = x
		for _, k := range r.Keys[:r.First] {
			if live[string(k)], err = v.Get(string(k)); err != nil {
				return nil // or replaced
			}
		}
	}
	look := func(when string) error {
		for i, k := range r.Keys {
			for way := 0; way < 3; way++ {
				q := asciiCase(string(k), way)
				same, must := map[*jv.V]bool{}, false
				for l, x := range live {
					must = must || asciiCase(l, 0) == asciiCase(q, 0)
					if strings.ToLower(l) == strings.ToLower(q) { // all bad bytes may count as the same
						same[x] = true
					}
				}
				if x := live[q]; x != nil {
					same = map[*jv.V]bool{x: true}
				}
				got, err := v.Caseless().Get(q)
				if must && (err != nil || !same[got]) {
					return errf("%s, with the keys %q, Caseless().Get(%q) gives %v, error %v", when, r.Keys, q, got, err)
				}
				if err == nil {
					found := false
					for _, x := range live {
						found = found || x == got
					}
					if !found {
						return errf("%s, with the keys %q, Caseless().Get(%q) gives %v, which is not there (key %d)", when, r.Keys, q, got, i)
					}
				}
			}
		}
		return nil
	}
	if err := look("at first"); err != nil {
		return err
	}
	for i, k := range r.Keys {
		if r.Parsed && i < r.First {
			continue
		}
		x, err := v.Set(i).At(string(k))
		if err != nil {
			return errf("Set at %q: %v", k, err)
		}
		live[string(k)] = x
		if i+1 == r.First {
			if err := look("first"); err != nil {
				return err
			}
		}
	}
	if err := look("then"); err != nil {
		return err
	}
	for i, k := range r.Keys {
		if !r.Del[i] {
			continue
		}
		if err := v.Delete(string(k)); err != nil {
			return errf("Delete(%q) of the keys %q: %v", k, r.Keys, err)
		}
		delete(live, string(k))
		if err := look(fmt.Sprintf("after the deletion of %q", k)); err != nil {
			return err
		}
	}
	return nil
}

// touchAll reads a value and all below it, in a way which may build something internal.
func touchAll(v *jv.V, m *J, way int) error {
	if m.size() > 1000 {
		return nil
	}
	if err := (Op{F: way}).touch(v, m); err != nil {
		return err
	}
	for i, a := range m.A {
		if c := v.MustGet(i); !a.isLeaf() {
			if err := touchAll(c, a, way); err != nil {
				return err
			}
		}
	}
	for _, kv := range m.O {
		if c := v.MustGet(kv.K); !kv.V.isLeaf() {
			if err := touchAll(c, kv.V, way); err != nil {
				return err
			}
		}
	}
	return nil
}

// genSetPath draws a path for setting: through existing nodes, then into new ones.
func genSetPath(t *rapid.T, j *J, key func(*rapid.T) string) []Step {
	var p []Step
	cur := j
	max := 5
	if c := chainOf(j); len(c) > 6 && chance(t, 50) { // down a deep chain
		for _, s := range c[:in(t, len(c)/2, len(c))] {
			p = append(p, s)
			cur = cur.child(s)
		}
		max = len(p) + 3
	}
	if pick(t, 128) == 77 { // which makes many containers
		return append(p, genWay(t, logUniform(t, 4, 80))...)
	}
	for len(p) < max {
		if len(p) > 0 && chance(t, 30) {
			break
		}
		if cur != nil && cur.isLeaf() && len(p) > 0 && !chance(t, 8) {
			break
		}
		var s Step
		kind := KObj
		if cur != nil {
			kind = cur.K
		} else if chance(t, 40) {
			kind = KArr
		}
		if chance(t, 4) { // the wrong kind
			kind = of(t, []Kind{KObj, KArr})
		}
		if kind == KArr {
			n := 0
			if cur != nil {
				n = len(cur.A)
			}
			switch x := pick(t, 100); {
			case x < 50 && n > 0:
				s = iStep(in(t, -n, n-1))
			case x < 90:
				s = iStep(n)
			default:
				s = iStep(genIndexFor(t, n))
			}
			s.U, s.W = chance(t, 25), chance(t, 2)
		} else {
			if cur != nil && len(cur.O) > 0 && chance(t, 55) {
				s = kStep(of(t, cur.O).K)
			} else {
				s = kStep(key(t))
			}
		}
		p = append(p, s)
		if cur != nil {
			cur = cur.child(s)
		}
	}
	return p
}

// arrays lists the paths of all arrays of a document.
func arrays(j *J, p []Step, res *[][]Step) {
	if j.K == KArr {
		*res = append(*res, append([]Step{}, p...))
	}
	for i, a := range j.A {
		arrays(a, append(p[:len(p):len(p)], iStep(i)), res)
	}
	for _, kv := range j.O {
		arrays(kv.V, append(p[:len(p):len(p)], kStep(kv.K)), res)
	}
}

func genChild(t *rapid.T, o docOpt) *J {
	switch x := pick(t, 10); {
	case x < 4:
		return genLeaf(t, o)
	case x < 5:
		return jObj()
	case x < 6:
		return jArr()
	default:
		o.depth, o.wide = 1, false
		return genDoc(t, o)
	}
}

func genOp(t *rapid.T, j *J, kinds []string, o docOpt) Op {
	op := Op{K: of(t, kinds), F: pick(t, 32), PF: genForm(t), Must: chance(t, 20)}
	target := j
	if chance(t, 15) { // through a handle
		h := genPath(t, j, 2, 0)
		if x := j.find(h); x != nil && (!x.isLeaf() || chance(t, 10)) {
			op.H, target = h, x
		}
	}
	if op.K != "delete" && op.K != "cdelete" && op.K != "cget" {
		op.V = genChild(t, o)
		if chance(t, 4) {
			op.Bad = in(t, 1, 3)
		}
	}
	switch op.K {
	case "set":
		op.P = genSetPath(t, target, o.keyFn())
	case "append", "prepend", "before", "after":
		insert := op.K == "before" || op.K == "after"
		var all [][]Step
		arrays(target, nil, &all)
		switch {
		case len(all) > 0 && chance(t, 75):
			op.P = of(t, all)
			if insert {
				n := len(target.find(op.P).A)
				s := iStep(genIndexFor(t, n))
				s.U, s.W = chance(t, 25), chance(t, 2)
				op.P = append(op.P, s)
			}
		case chance(t, 60) || insert:
			op.P = genSetPath(t, target, o.keyFn())
		default:
			op.P = genPath(t, target, 3, 10)
		}
	default:
		op.P = genPath(t, target, of(t, []int{3, 3, 3, 6}), 10)
		if op.K != "delete" {
			for i, s := range op.P {
				if s.Key != nil && chance(t, 65) {
					op.P[i] = kStep(recase(t, string(*s.Key)))
				}
			}
		}
	}
	if !strings.HasPrefix(op.K, "c") && chance(t, 10) { // keys which are there in other letters
		for i, s := range op.P {
			if s.Key != nil && coin(t) {
				op.P[i] = kStep(recase(t, string(*s.Key)))
			}
		}
	}
	for i, s := range op.P { // negative forms of indexes
		if s.Index != nil && *s.Index >= 0 && chance(t, 15) {
			if x := target.find(op.P[:i]); x != nil && *s.Index < len(x.A) {
				op.P[i] = iStep(*s.Index - len(x.A))
			}
		}
	}
	if len(op.P) == 0 && op.K != "append" && op.K != "prepend" {
		op.P = []Step{iStep(0)}
	}
	return op
}

// genLoad draws an operation which is not about a path.
func genLoad(t *rapid.T, j *J, o docOpt) Op {
	op := Op{K: of(t, []string{"dup", "load", "touch", "touch"}), F: pick(t, 32)}
	if op.K == "dup" {
		return op
	}
	if h := genPath(t, j, 2, 0); coin(t) && j.find(h) != nil {
		op.H = h
	}
	if op.K == "load" {
		d := o
		d.root = of(t, []Kind{KObj, KArr})
		op.V = genDoc(t, d)
		if chance(t, 15) {
			op.Bad = 3
		}
	}
	return op
}

// widen adds many members to one or two containers.
func widen(t *rapid.T, j *J) {
	var all []*J
	j.walk(func(x *J, _ int) {
		if !x.isLeaf() {
			all = append(all, x)
		}
	})
	for n := in(t, 1, 2); n > 0 && len(all) > 0; n-- {
		x := of(t, all)
		k := logUniform(t, 5, 64)
		for i := 0; i < k; i++ {
			if x.K == KArr {
				x.A = append(x.A, jInt(i))
			} else {
				x.set(fmt.Sprintf("%c%d", "kK"[i%5/4], i), jInt(i))
			}
		}
	}
}

func genHist(kinds []string, key func(*rapid.T) string) func(t *rapid.T) histCase {
	return func(t *rapid.T) histCase {
		o := docOpt{depth: of(t, []int{2, 2, 2, 3, 4}), key: key}
		c := histCase{Form: pick(t, 5)}
		d := o
		d.root = of(t, []Kind{KObj, KObj, KArr})
		if chance(t, 10) {
			d.wide = true
		}
		if chance(t, 30) {
			c.Doc = map[Kind]*J{KObj: jObj(), KArr: jArr()}[d.root]
		} else {
			c.Doc = genDoc(t, d)
		}
		if chance(t, 12) {
			widen(t, c.Doc)
		}
		if chance(t, 3) {
			c.Doc = deepen(t, c.Doc, d).normalize()
		}
		if chance(t, 25) {
			c.Warm = in(t, 1, 8)
			if coin(t) {
				c.Warm = 8 // without regard to case
			}
		}
		m := c.Doc.clone()
		n, big := in(t, 1, of(t, []int{3, 8, 8, 16, 30})), 0
		var last *usage
		for i := 0; i < n; i++ {
			var op Op
			if last != nil && chance(t, 8) {
				kinds := map[string][]string{"Set": {"set"}, "Append": {"append", "prepend"}, "Insert": {"before", "after"}}[last.verb]
				op = genOp(t, last.root, kinds, o)
				op.Again, op.Must, op.V, op.Bad, op.H = true, last.must, nil, 0, nil
			} else if chance(t, 8) {
				op = genLoad(t, m, o)
			} else {
				op = genOp(t, m, kinds, o)
				op.Held = i > 0 && len(op.H) == 0 && op.verb() != "" && chance(t, 8)
				if op.V != nil && op.Bad == 0 && !op.Held {
					switch x := pick(t, 1000); {
					case x < 60: // a value which is there already
						op.Own, op.From = true, genPath(t, m, 3, 0)
						if op.K == "set" && coin(t) {
							op.From = append(append([]Step{}, op.H...), op.P...) // at the very same place
						}
					case x < 95:
						op.N = in(t, 2, 80)
						if op.Seq = coin(t); op.Seq && chance(t, 20) {
							op.N = in(t, 80, 300)
						}
					case x < 96 && (op.K == "set" || op.K == "append") && op.V.isLeaf():
						if op.N = of(t, []int{128, 255, 256, 257, 1000}); chance(t, 12) {
							op.N = of(t, []int{4097, 65534, 65536, 65537, 70000})
						}
					}
				}
			}
			if op.K == "delete" && chance(t, 15) {
				if x := m.find(op.H); x != nil && len(op.P) > 0 {
					if x = x.find(op.P[:len(op.P)-1]); x != nil && len(x.A) > 1 {
						op.N = in(t, 2, len(x.A))
					}
				}
			}
			if strings.HasPrefix(op.K, "c") {
				if op.K == "cdelete" {
					if out := cFind(m, op.P); len(out) > 0 && out[0].e == eNone {
						mDelete(m, out[0].path)
					}
				}
			} else {
				before := m.cloneShared()
				e, root := mApply(m, &op, last)
				if e != eNone && op.K != "delete" {
					*m = *before
				} else if op.K == "dup" {
					m = m.clone()
				}
				last = op.used(e, nil, root)
			}
			c.Ops = append(c.Ops, op)
			if n := m.size(); n > 250 {
				big++
				if big > 3 || n > 1000 {
					break
				}
			}
		}
		return c
	}
}

func checkHist(ordered bool, nt func(Op, errClass) bool) func(histCase, *Stat) error {
	return func(c histCase, st *Stat) error {
		if c.Raw != nil {
			st.Label("keys of other bytes than UTF-8")
			st.NT()
			return c.Raw.check()
		}
		v, err := originV(c.Doc, c.Form)
		if err != nil {
			return errf("%v: %v", c.Doc, err)
		}
		if c.Warm > 0 {
			if err := touchAll(v, c.Doc, c.Warm); err != nil {
				return errf("reading %v: %v", c.Doc, err)
			}
			st.Label("read before")
		}
		m := c.Doc.clone()
		cmp := cmpOpt{order: ordered}
		good, bad := 0, 0
		var oldV *jv.V // what was left behind by a copy
		var oldM *J
		var last, next *usage
		var held any
		var heldV *jv.V
		kept := map[*jv.V]jv.Caseless{}
		caseless := func(v *jv.V, way int) jv.Caseless {
			if way%4 == 0 {
				return v.Caseless()
			}
			if kept[v] == nil {
				kept[v] = v.Caseless()
			}
			return kept[v]
		}
		caseless(v, 1)
		for i, op := range c.Ops {
			what := fmt.Sprintf("step %d, %v, on %v", i, op, m)
			h, hm := v, m
			last, next = next, nil
			op.s, op.sc = held, heldV
			held, heldV = nil, nil
			if op.s != nil {
				st.Label("made before the step before")
			}
			if op.Again {
				if last == nil || last.verb != op.verb() || last.must != op.Must {
					continue
				}
				h, hm, op.s, op.sc, op.V = last.v, last.root, last.s, last.sc, last.V
				if op.notInside(hm, last.c) == nil {
					continue
				}
				st.Label("used once more")
			}
			if i+1 < len(c.Ops) && op.K != "dup" {
				if o := c.Ops[i+1]; o.Held && o.verb() != "" && len(o.H) == 0 && !o.Again && !o.Own && o.N < 2 {
					held, heldV = start(v, o.verb(), o)
				}
			}
			if len(op.H) > 0 {
				if hm = m.find(op.H); hm == nil {
					continue
				}
				ps := params(op.H)
				if h, err = v.Get(ps[0], ps[1:]...); err != nil {
					return errf("%s: handle: %v", what, err)
				}
			}
			switch op.K {
			case "touch":
				if err := op.touch(h, hm); err != nil {
					return errf("%s: %v", what, err)
				}
			case "dup":
				oldV, oldM = v, m
				m = m.clone()
				if v, err = op.dup(v); err != nil {
					return errf("%s: %v", what, err)
				}
				st.Label("copied")
			case "load":
				err := op.load(h)
				if (err != nil) != (op.Bad > 0) {
					return errf("%s: unmarshaling %s gives the error %v", what, op.V, err)
				}
				if err == nil {
					mApply(m, &op, nil)
					st.Label("loaded")
				}
			case "cget", "cdelete":
				if err := spellings(caseless(h, i), hm, op, st, 2); err != nil {
					return errf("%s: before: %v", what, err)
				}
				e, err := caselessStep(h, caseless(h, op.F), hm, op, st)
				if err != nil {
					return errf("%s: %v", what, err)
				}
				if e == eNone {
					if err := spellings(caseless(h, i), hm, op, st, 1); err != nil {
						return errf("%s: afterwards: %v", what, err)
					}
					good++
					if nt(op, e) {
						st.NT()
					}
				}
			default:
				if op.Own {
					if op.own(m, hm) == nil {
						continue
					}
					op.src = v
					if ps := params(op.From); len(ps) > 0 {
						if op.src, err = v.Get(ps[0], ps[1:]...); err != nil {
							return errf("%s: the value to give: %v", what, err)
						}
					}
					op.V = m.find(op.From).clone()
					st.Label("a value given again")
				}
				if op.N > 0 {
					st.Label("repeated")
				}
				if op.N > 60000 {
					st.Label("repeated 60000 times")
				}
				if op.s == nil && op.verb() != "" && op.N < 2 {
					op.s, op.sc = start(h, op.verb(), op)
				}
				if err := spellings(caseless(h, i), hm, op, st, 2); err != nil {
					return errf("%s: before: %v", what, err)
				}
				before := m.cloneShared()
				e, _ := mApply(m, &op, last)
				if e != eNone {
					if op.K != "delete" { // of some deletions, the first ones may have worked
						*m = *before // a failing operation changes nothing
					}
					bad++
					st.Label(op.K + " fails")
				} else {
					good++
					st.Label(op.K + " works")
				}
				if nt(op, e) {
					st.NT()
				}
				next = op.used(e, h, hm)
				ret, child, hasRet, err := op.apply(h)
				if !op.Must {
					if cerr := e.check(err); cerr != nil {
						return errf("%s: %v", what, cerr)
					}
				}
				if hasRet {
					if e != eNone {
						if !isNotExist(ret) {
							return errf("%s: a value %v comes with the error %v", what, ret, err)
						}
					} else {
						if child != nil && ret != child {
							return errf("%s: returns another value than the one given", what)
						}
						if err := expectV(what+": returned value", ret, op.V, cmp); err != nil {
							return err
						}
						if op.K == "set" {
							ps := params(op.P)
							if live, err := h.Get(ps[0], ps[1:]...); err != nil || live != ret {
								return errf("%s: the value at the path afterwards is %v (%v), not the returned one", what, live, err)
							}
						}
					}
				}
			}
			if err := expectV(what, v, m, cmp); err != nil {
				return err
			}
			if op.K == "delete" {
				if err := spellings(caseless(h, i), hm, op, st, 1); err != nil {
					return errf("%s: afterwards: %v", what, err)
				}
			}
			if ordered {
				b, err := v.Marshal(jv.OptSetSequence(), jv.OptUTF8())
				if err != nil {
					return errf("%s: marshaling: %v", what, err)
				}
				got, err := ParseStrict(b)
				if err != nil {
					return errf("%s: marshals as %q: %v", what, b, err)
				}
				if err := diffJ(got, m, cmp); err != nil {
					return errf("%s: OptSetSequence gives %q: %v", what, b, err)
				}
			}
		}
		if oldV != nil {
			if err := expectV("what was copied, after changing the copy", oldV, oldM, cmp); err != nil {
				return err
			}
			if err := allCaseless(oldV, oldM); err != nil {
				return errf("what was copied, after changing the copy: %v", err)
			}
		}
		if err := allCaseless(v, m); err != nil {
			return errf("in the end: %v", err)
		}
		if err := deepCaseless(v, m); err != nil {
			return errf("in the end: %v", err)
		}
		// the final value as a whole
		b, err := v.Marshal(jv.OptUTF8())
		if err != nil {
			return errf("marshaling %v: %v", m, err)
		}
		got, err := ParseStrict(b)
		if err != nil {
			return errf("%v marshals as %q: %v", m, b, err)
		}
		if err := diffJ(got, m, cmpOpt{}); err != nil {
			return errf("final text %q: %v", b, err)
		}
		if !v.Equal(Build(m)) || !Build(m).Equal(v) {
			return errf("the final value differs from %v", m)
		}
		return nil
	}
}

// deepCaseless follows the longest chain of m without regard to case.
func deepCaseless(v *jv.V, m *J) error {
	p := chainOf(m)
	if len(p) < 2 {
		return nil
	}
	for form := 0; form < 3; form++ {
		q := append([]Step{}, p...)
		for i, s := range q {
			if s.Key != nil && form < 2 {
				q[i] = kStep([]func(string) string{strings.ToUpper, strings.ToLower}[form](string(*s.Key)))
			} else if s.Key != nil && i == len(p)-1 {
				q[i] = kStep("there is No such key")
			}
		}
		outs := cFind(m, q)
		ps := params(q)
		got, err := v.Caseless().Get(ps[0], ps[1:]...)
		want := "no value"
		ok := false
		for _, o := range outs {
			if o.e != eNone || err != nil {
				ok = ok || err != nil && o.e != eNone && o.e.check(err) == nil
				continue
			}
			ps := params(o.path)
			x, xerr := v.Get(ps[0], ps[1:]...)
			if xerr != nil {
				return errf("Get(%v): %v", pathString(o.path), xerr)
			}
			want = x.String()
			ok = ok || x == got
		}
		if !ok {
			return errf("Caseless().Get(%v) in %v gives %v, error %v, want %v", pathString(q), m, got, err, want)
		}
	}
	return nil
}

// allCaseless looks up all keys without regard to case.
func allCaseless(v *jv.V, m *J) error {
	if m.size() > 1000 {
		return nil
	}
	for _, kv := range m.O {
		c, err := v.Get(kv.K)
		if err != nil {
			return errf("Get(%q): %v", kv.K, err)
		}
		for _, k := range []string{strings.ToUpper(kv.K), strings.ToLower(kv.K)} {
			outs := cFind(m, []Step{kStep(k)})
			got, err := v.Caseless().Get(k)
			if e := outs[0].e.check(err); e != nil {
				return errf("Caseless().Get(%q): %v", k, e)
			}
			if err != nil {
				continue
			}
			live := false
			for _, o := range outs {
				x, _ := v.Get(string(*o.path[0].Key))
				live = live || x == got
			}
			if !live {
				return errf("Caseless().Get(%q) in %v is %v, none of the members with that key", k, m, got)
			}
		}
		if err := allCaseless(c, kv.V); err != nil {
			return err
		}
	}
	for i, a := range m.A {
		c, err := v.Get(i)
		if err != nil {
			return errf("Get(%d): %v", i, err)
		}
		if err := allCaseless(c, a); err != nil {
			return err
		}
	}
	return nil
}

// spellings looks up the key which a deletion is about in many spellings, in half of the
// operations.
func spellings(cl jv.Caseless, m *J, op Op, st *Stat, half int) error {
	if op.K != "delete" && op.K != "cdelete" || op.F/4*half%4 > 1 || len(op.P) == 0 || m.huge != nil {
		return nil
	}
	n := len(op.P) - 1
	if op.P[n].Key == nil {
		return nil
	}
	k := string(*op.P[n].Key)
	all := []string{strings.ToLower(k), strings.ToUpper(k), k}
	for _, x := range clusterKeys {
		if x != k && strings.EqualFold(x, k) {
			all = append(all, x)
		}
	}
	for i := range all {
		k := all[(i+op.F)%len(all)]
		o := Op{K: "cget", P: append(append([]Step{}, op.P[:n]...), kStep(k)), PF: op.PF}
		if _, err := caselessStep(nil, cl, m, o, newStat()); err != nil {
			return errf("%v: %v", o, err)
		}
	}
	st.Label("many spellings")
	return nil
}

// caselessStep runs a caseless lookup or deletion through cl and brings the model in line.
func caselessStep(v *jv.V, cl jv.Caseless, m *J, op Op, st *Stat) (errClass, error) {
	ps := paramForm(op.P, op.PF)
	if op.K == "cget" {
		outs := cFind(m, op.P)
		got, err := cl.Get(ps[0], ps[1:]...)
		if len(outs) > 1 {
			st.Label("caseless get, several keys match")
		} else if outs[0].e == eNone {
			st.Label("caseless get works")
		} else {
			st.Label("caseless get fails")
		}
		var firstErr error
		for _, o := range outs {
			var e error
			if e = o.e.check(err); e == nil && o.e == eNone {
				e = expectV("caseless get", got, o.j, cmpOpt{})
			} else if e == nil && !isNotExist(got) {
				e = errf("a value %v comes with the error %v", got, err)
			}
			if e == nil {
				// all the other getters
				if len(outs) == 1 {
					return o.e, checkGettersE(cl, ps, o.j, o.e)
				}
				return o.e, nil
			}
			if firstErr == nil {
				firstErr = e
			}
		}
		return 0, firstErr
	}
	outs := cFind(m, op.P[:len(op.P)-1])
	var cands []outcome // each with the path to delete
	for _, o := range outs {
		if o.e != eNone {
			cands = append(cands, o)
			continue
		}
		for _, l := range cFind(o.j, op.P[len(op.P)-1:]) {
			if l.e == eType { // deleting in a leaf gives some error
				l.e = eAny
			}
			l.path = append(append([]Step{}, o.path...), l.path...)
			cands = append(cands, l)
		}
	}
	var err error
	if op.Must {
		cl.MustDelete(ps[0], ps[1:]...)
	} else {
		err = cl.Delete(ps[0], ps[1:]...)
	}
	if len(cands) > 1 {
		st.Label("caseless delete, several keys match")
	} else if cands[0].e == eNone {
		st.Label("caseless delete works")
	} else {
		st.Label("caseless delete fails")
	}
	got, rerr := Read(v)
	if rerr != nil {
		return 0, rerr
	}
	var firstErr error
	for _, o := range cands {
		var e error
		if !op.Must {
			e = o.e.check(err)
		}
		after := m.cloneShared()
		if o.e == eNone {
			if x := mDelete(after, o.path); x != eNone {
				harnessBug("caseless delete in the model")
			}
		}
		if e == nil {
			e = diffJ(got, after, cmpOpt{})
		}
		if e == nil {
			if o.e == eNone {
				mDelete(m, o.path)
			}
			return o.e, nil
		}
		if firstErr == nil {
			firstErr = e
		}
	}
	return 0, firstErr
}

// recase changes the case of some letters.
func recase(t *rapid.T, k string) string {
	switch pick(t, 3) {
	case 0:
		return strings.ToUpper(k)
	case 1:
		return strings.ToLower(k)
	}
	var b strings.Builder
	for _, r := range k {
		switch pick(t, 3) {
		case 0:
			r = unicode.ToUpper(r)
		case 1:
			r = unicode.SimpleFold(r)
		}
		b.WriteRune(r)
	}
	return b.String()
}

var clusterKeys = []string{"ab", "aB", "Ab", "AB", "id", "iD", "Id", "ID", "σ", "Σ", "ς"}

func genCaseKey(t *rapid.T) string {
	if chance(t, 60) {
		return of(t, clusterKeys)
	}
	if chance(t, 85) {
		return of(t, caseKeys)
	}
	return genKey(t)
}

// genSpellings makes histories about many spellings of one word.
func genSpellings(t *rapid.T) histCase {
	word := of(t, []string{"abcd", "abcde", "skeid", "abcdefgh", "σéß日k"})
	key := func() string {
		b := []rune(word)
		for i := range b {
			if coin(t) {
				b[i] = unicode.ToUpper(b[i])
			}
		}
		return string(b)
	}
	doc := jObj()
	for i := in(t, 2, 24); i > 0; i-- {
		doc.set(key(), jInt(i))
	}
	c := histCase{Doc: doc, Form: pick(t, 5)}
	var way []Step
	if chance(t, 30) {
		c.Doc, way = jObj(KV{"w", doc}), []Step{kStep(of(t, []string{"w", "W"}))}
	}
	kinds := []string{"delete", "cdelete", "cdelete", "cdelete", "cget", "set"}
	if coin(t) {
		kinds = []string{"delete", "cdelete", "cdelete", "cget", "set", "set", "set"}
	}
	for i := in(t, 4, 30); i > 0; i-- {
		op := Op{K: of(t, kinds), F: pick(t, 32), PF: genForm(t)}
		op.P = append(append(op.P, way...), kStep(key()))
		if op.K == "set" || op.K == "delete" {
			if len(way) > 0 {
				op.P[0] = kStep("w")
			}
			if op.K == "set" {
				op.V = jInt(i)
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genCaseless(t *rapid.T) histCase {
	if chance(t, 4) {
		return histCase{Doc: jObj(), Raw: genRawKeys(t)}
	}
	if chance(t, 6) {
		return genSpellings(t)
	}
	c := genHist([]string{"set", "set", "set", "delete", "cdelete", "cget", "cget", "cget", "cget"}, genCaseKey)(t)
	return c
}

// genFewKeys makes setting a key again likely.
func genFewKeys(t *rapid.T) string {
	if chance(t, 80) {
		return of(t, []string{"a", "b", "c", "d", "e"})
	}
	return genKey(t)
}

func init() {
	deep := func(o Op, e errClass) bool { return e == eNone && len(o.P) >= 2 }
	register(spec[histCase]{
		ID:     "P06",
		Rule:   "a case is a document and a history of up to 30 operations, mostly Set through paths of up to five steps (existing, new, out of range, of the wrong kind; values given as *V, native, typed or illegal; paths in seven forms; through handles of descendants), compared with the reference tree after every step; non-trivial: a successful Set at a path of two or more steps",
		Quick:  40000,
		Gen:    genHist([]string{"set", "set", "set", "set", "set", "set", "delete", "append"}, genKey),
		Check:  checkHist(false, deep),
		Assume: []string{"no value is put into itself"},
	})
	register(spec[histCase]{
		ID:    "P07",
		Rule:  "as P06 with histories of mostly Append and Insert (before, after, beginning, end; missing arrays are created by Append); non-trivial: a successful Insert, or Append at a path",
		Quick: 40000,
		Gen:   genHist([]string{"append", "append", "prepend", "prepend", "before", "before", "after", "after", "set", "delete"}, genKey),
		Check: checkHist(false, func(o Op, e errClass) bool {
			return e == eNone && (o.K == "before" || o.K == "after" || (o.K == "append" || o.K == "prepend") && len(o.P) > 0)
		}),
	})
	register(spec[histCase]{
		ID:    "P08",
		Rule:  "as P06 with histories of mostly Delete; non-trivial: a successful Delete",
		Quick: 50000,
		Gen: func(t *rapid.T) histCase {
			if chance(t, 20) { // with lookups and deletions without regard to case
				return genHist([]string{"delete", "delete", "cdelete", "cdelete", "set", "cget"}, genCaseKey)(t)
			}
			return genHist([]string{"delete", "delete", "delete", "set", "append", "before"}, genKey)(t)
		},
		Check: checkHist(false, func(o Op, e errClass) bool { return e == eNone && o.K == "delete" }),
	})
	register(spec[histCase]{
		ID:    "P09",
		Rule:  "as P06 with histories over few keys, so that keys are set again and deleted; the order of members in RangeObjectsBySetSequence and under OptSetSequence is compared at every level after every step; non-trivial: a history which sets or deletes an existing key",
		Quick: 28000,
		Gen:   genHist([]string{"set", "set", "set", "set", "delete", "append"}, genFewKeys),
		Check: checkHist(true, func(o Op, e errClass) bool {
			return e == eNone && (o.K == "set" || o.K == "delete") && o.P[len(o.P)-1].Key != nil
		}),
	})
	register(spec[histCase]{
		ID:    "P10",
		Rule:  "a case is a document whose keys collide without regard to case (incl. non-ASCII) and a history which mixes caseless Get and Delete with Set and Delete; an exact key must win, otherwise any key of the same strings.ToLower form; or keys of other bytes than UTF-8, in some of which letters of ASCII differ; non-trivial: a successful caseless operation",
		Quick: 50000,
		Gen:   genCaseless,
		Check: checkHist(false, func(o Op, e errClass) bool { return e == eNone && strings.HasPrefix(o.K, "c") }),
	})
}
