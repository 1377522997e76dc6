package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/fs"
	"math"
	"math/bits"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"pgregory.net/rapid"
)

// play makes the value of a history and its model, without checking.
func (c histCase) play() (*jv.V, *J, error) {
	v, err := originV(c.Doc, c.Form)
	if err != nil {
		return nil, nil, errf("%v: %v", c.Doc, err)
	}
	m := c.Doc.clone()
	for _, op := range c.Ops {
		if op.Again {
			continue
		}
		h := v
		if len(op.H) > 0 {
			if m.find(op.H) == nil {
				continue
			}
			ps := params(op.H)
			if h, err = v.Get(ps[0], ps[1:]...); err != nil {
				return nil, nil, errf("handle of %v: %v", op, err)
			}
		}
		if op.Own {
			if op.own(m, m.find(op.H)) == nil {
				continue
			}
			op.src = v
			if ps := params(op.From); len(ps) > 0 {
				if op.src, err = v.Get(ps[0], ps[1:]...); err != nil {
					return nil, nil, errf("%v: the value to give: %v", op, err)
				}
			}
		}
		before := m.cloneShared()
		if e, _ := mApply(m, &op, nil); e != eNone && op.K != "delete" {
			*m = *before
		}
		switch op.K {
		case "dup":
			m = m.clone()
			if v, err = op.dup(v); err != nil {
				return nil, nil, errf("%v: %v", op, err)
			}
		case "load":
			op.load(h)
		case "touch":
			op.touch(h, m.find(op.H))
		default:
			op.apply(h)
		}
	}
	if err := expectV("the value to start with", v, m, cmpOpt{order: true}); err != nil {
		return nil, nil, err
	}
	return v, m, nil
}

// ---- P23: iteration ----

type iterCase struct {
	H    histCase
	Huge *J `json:",omitempty"`
	Stop int
	Edit []int
}

func genIter(t *rapid.T) iterCase {
	if rarely(t, 1500) {
		return iterCase{Huge: genHuge(t, hugeArrays, hugeObjects), Stop: of(t, []int{0, 1, 256, 4096, 65535, 65536, 1 << 30})}
	}
	c := iterCase{H: genHist([]string{"set", "set", "append", "prepend", "delete"}, genFewKeys)(t)}
	for i := range c.H.Ops {
		if c.H.Ops[i].N > 300 {
			c.H.Ops[i].N = 300
		}
	}
	c.Stop = in(t, 0, 8)
	c.Edit = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 8).Draw(t, "edit")
	return c
}

type visit struct {
	key string
	idx int
	v   *jv.V
}

// visits checks the calls of an iteration over j's members: keys unless array.
func (j *J) visits(what string, v *jv.V, got []visit, n int, ordered bool) error {
	total := len(j.A) + len(j.O)
	if n > total {
		n = total
	}
	if len(got) != n {
		return errf("%s of %v: %d members visited, want %d", what, j, len(got), n)
	}
	seen := map[string]bool{}
	for i, g := range got {
		var want *J
		var live *jv.V
		var err error
		if j.K == KArr {
			if g.idx != i {
				return errf("%s of %v: element %d is called %d", what, j, i, g.idx)
			}
			want = j.A[i]
			live, err = v.Get(i)
		} else {
			if seen[g.key] {
				return errf("%s of %v: key %q comes twice", what, j, g.key)
			}
			seen[g.key] = true
			if ordered && j.O[i].K != g.key {
				return errf("%s of %v: key %d is %q, want %q", what, j, i, g.key, j.O[i].K)
			}
			if want = j.get(g.key); want == nil {
				return errf("%s of %v: key %q is not in the object", what, j, g.key)
			}
			live, err = v.Get(g.key)
		}
		if err != nil || live != g.v {
			return errf("%s of %v: %v is not the member of the value itself", what, j, g.v)
		}
		if err := expectV(what, g.v, want, cmpOpt{order: true}); err != nil {
			return err
		}
	}
	return nil
}

func checkIterAt(v *jv.V, j *J, stop int, st *Stat) error {
	obj, arr := len(j.O), len(j.A)
	for _, limit := range []int{math.MaxInt, stop} {
		// a callback which returns false ends the iteration after that call
		n := limit
		if n == 0 {
			n = 1
		}
		var got []visit
		count := func(k string, i int, c *jv.V) bool {
			got = append(got, visit{k, i, c})
			return len(got) < n
		}
		wantObj, wantArr := n, n
		if j.K != KObj {
			wantObj = 0
		}
		if j.K != KArr {
			wantArr = 0
		}
		v.RangeObjects(func(k string, c *jv.V) bool { return count(k, 0, c) })
		if err := j.visits("RangeObjects", v, got, wantObj, false); err != nil {
			return err
		}
		got = nil
		v.RangeObjectsBySetSequence(func(k string, c *jv.V) bool { return count(k, 0, c) })
		if err := j.visits("RangeObjectsBySetSequence", v, got, wantObj, true); err != nil {
			return err
		}
		got = nil
		v.RangeArray(func(i int, c *jv.V) bool { return count("", i, c) })
		if err := j.visits("RangeArray", v, got, wantArr, true); err != nil {
			return err
		}
		got = nil
		for it := range v.IterObjects() {
			if !count(it.K, 0, it.V) {
				break
			}
		}
		if err := j.visits("IterObjects", v, got, wantObj, false); err != nil {
			return err
		}
		got = nil
		for it := range v.IterArray() {
			if !count("", it.I, it.V) {
				break
			}
		}
		if err := j.visits("IterArray", v, got, wantArr, true); err != nil {
			return err
		}
		got = nil
		for k, c := range v.ForRangeObj() {
			if !count(k, 0, c) {
				break
			}
		}
		if err := j.visits("ForRangeObj", v, got, wantObj, false); err != nil {
			return err
		}
		got = nil
		for i, c := range v.ForRangeArr() {
			if !count("", i, c) {
				break
			}
		}
		if err := j.visits("ForRangeArr", v, got, wantArr, true); err != nil {
			return err
		}
	}
	if n := len(v.ForRangeObj()); n != obj {
		return errf("ForRangeObj of %v has %d members", j, n)
	}
	if n := len(v.ForRangeArr()); n != arr {
		return errf("ForRangeArr of %v has %d elements", j, n)
	}
	if v.Len() != obj+arr {
		return errf("Len of %v is %d", j, v.Len())
	}
	v.RangeObjects(nil)
	v.RangeObjectsBySetSequence(nil)
	v.RangeArray(nil)

	// iterations nested in each other are independent
	if obj > 0 && obj <= 5 {
		n := 0
		v.RangeObjectsBySetSequence(func(k string, _ *jv.V) bool {
			v.RangeObjects(func(string, *jv.V) bool {
				v.RangeObjectsBySetSequence(func(string, *jv.V) bool { n++; return true })
				return true
			})
			return true
		})
		if n != obj*obj*obj {
			return errf("nested iterations over %v make %d calls", j, n)
		}
	}
	st.Label(string(j.K))
	return nil
}

// settled waits until no more goroutines than base are left.
func settled(base int) bool {
	for i := 0; i < 4000; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		if i < 1000 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	return false
}

func checkIter(c iterCase, st *Stat) error {
	base := runtime.NumGoroutine()
	if c.Huge != nil {
		st.NT()
		st.Label("huge")
		v, err := jv.UnmarshalString(renderPlain(c.Huge))
		if err != nil {
			return errf("%v: %v", c.Huge, err)
		}
		if err := checkIterAt(v, c.Huge, c.Stop, st); err != nil {
			return err
		}
		if !settled(base) {
			return errf("iterating over %v leaves goroutines behind", c.Huge)
		}
		return expectV("after iterating", v, c.Huge, cmpOpt{order: true})
	}
	v, m, err := c.H.play()
	if err != nil {
		return err
	}
	if len(m.A)+len(m.O) >= 2 {
		st.NT()
	}
	// every container of the document
	var each func(v *jv.V, j *J, d int) error
	each = func(v *jv.V, j *J, d int) error {
		if err := checkIterAt(v, j, c.Stop, st); err != nil {
			return err
		}
		for i, a := range j.A {
			if err := each(v.MustGet(i), a, d+1); err != nil {
				return err
			}
		}
		for _, kv := range j.O {
			if err := each(v.MustGet(kv.K), kv.V, d+1); err != nil {
				return err
			}
		}
		return nil
	}
	if err := each(v, m, 0); err != nil {
		return err
	}
	if !settled(base) {
		return errf("iterating over %v leaves goroutines behind", m)
	}
	// members changed through an iteration are changed in the value
	edit := func(i int, x *jv.V, j *J) {
		if len(c.Edit) == 0 {
			return
		}
		switch c.Edit[i%len(c.Edit)] {
		case 1:
			if x.IsObject() {
				x.MustSetInt(i).At("edit")
				j.set("edit", jInt(i))
			}
		case 2:
			if x.IsArray() {
				x.MustAppendInt(i).InTheEnd()
				j.A = append(j.A, jInt(i))
			}
		case 3:
			if x.UnmarshalJSON([]byte(`{"z":1,"a":[]}`)) == nil {
				*j = *jObj(KV{"z", jInt(1)}, KV{"a", jArr()})
			}
		}
	}
	i := 0
	v.RangeObjectsBySetSequence(func(k string, x *jv.V) bool { edit(i, x, m.get(k)); i++; return true })
	v.RangeArray(func(i int, x *jv.V) bool { edit(i, x, m.A[i]); return true })
	if err := expectV("after changing members in an iteration", v, m, cmpOpt{order: true}); err != nil {
		return err
	}
	// the loops over copies allow changes of the container itself
	i = 0
	for k, x := range v.ForRangeObj() {
		i++
		if m.get(k) == nil {
			return errf("ForRangeObj visits the member %q which is gone", k)
		}
		if x != v.MustGet(k) {
			return errf("ForRangeObj gives something else than the member %q", k)
		}
		v.MustSet(i).At(fmt.Sprintf("new %d", i))
		if c.Stop%2 == 0 {
			v.MustDelete(k)
			m.del(k)
		}
		m.set(fmt.Sprintf("new %d", i), jInt(i))
		if i > 1000 {
			return errf("ForRangeObj does not end")
		}
	}
	n := len(m.A)
	first := v.ForRangeArr()
	for k := 0; k < 1+c.Stop%5 && n > 0; k++ { // what is added at the end is not visited either
		l := v.ForRangeArr()
		if len(l) != n+k {
			return errf("ForRangeArr gives %d of %d elements", len(l), n+k)
		}
		v.MustAppend(k).InTheEnd()
		m.A = append(m.A, jInt(k))
		for i, x := range first {
			if l[i] != x || v.MustGet(i) != x {
				return errf("after ForRangeArr and an Append at the end, element %d is %v instead of %v", i, l[i], x)
			}
		}
	}
	n = len(m.A)
	for i, x := range v.ForRangeArr() {
		if i >= n {
			return errf("ForRangeArr visits %d of %d elements", i+1, n)
		}
		v.MustAppend(i).InTheBeginning()
		if c.Stop%2 == 0 {
			v.MustDelete(-1)
			m.A = append([]*J{jInt(i)}, m.A[:len(m.A)-1]...)
		} else {
			m.A = append([]*J{jInt(i)}, m.A...)
			if y, err := v.Get(2*i + 1); err != nil || y != x {
				return errf("ForRangeArr: element %d is %v, which is not where it should be", i, x)
			}
		}
	}
	return expectV("after changing the container in a loop", v, m, cmpOpt{})
}

// ---- P24: SortArray ----

type sortCase struct {
	Doc  *J
	Form int
	Less int
	Key  S
	Salt uint32
	Pre  []Op
	// elements which are in the array once more, at the index of the value
	Twice []int `json:",omitempty"`
	// at every so many comparisons, less itself sorts another array of In elements
	Every int `json:",omitempty"`
	In    int `json:",omitempty"`
	// the panic may come at any time
	Late bool `json:",omitempty"`
}

// sortInside is what a less function may do with values of its own.
func sortInside(n, way int) error {
	a := jv.NewArray()
	for i := 0; i < n; i++ {
		a.MustAppendInt(i * 7 % (n + 1)).InTheEnd()
	}
	a.SortArray(func(x, y *jv.V) bool { return x.Int() > y.Int() })
	for i := 1; i < n; i++ {
		if a.MustGet(i-1).Int() < a.MustGet(i).Int() {
			return errf("sorting %d elements in a less function gives %s", n, a.MustMarshalString())
		}
	}
	if a.Len() != n {
		return errf("sorting %d elements in a less function leaves %d", n, a.Len())
	}
	if way%3 == 0 {
		o := jv.NewObject(map[string]any{"b": 1})
		o.MustSet(a).At("a")
		if s := o.MustMarshalString(jv.OptDefaultStringSequence()); !strings.HasPrefix(s, `{"a":[`) || !strings.HasSuffix(s, `],"b":1}`) {
			return errf("marshaling in a less function gives %s", s)
		}
	}
	return nil
}

var sortNames = []string{"number", "number desc", "string", "length", "kind", "constant false", "constant true", "random", "by key", "nil", "index", "panics"}

func genSort(t *rapid.T) sortCase {
	c := sortCase{Form: pick(t, 5), Less: pick(t, len(sortNames)), Salt: uint32(u64(t))}
	o := docOpt{depth: 1}
	c.Doc = jArr()
	n := in(t, 0, of(t, []int{3, 13, 13, 40, 120}))
	keys := []string{"a", "b"}
	mode := pick(t, 5)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			c.Doc.A = append(c.Doc.A, jInt(in(t, -9, 9)))
		case 1:
			c.Doc.A = append(c.Doc.A, jNum(genNum(t)))
		case 2:
			c.Doc.A = append(c.Doc.A, jStr(genStr(t)))
		case 3:
			x := jObj()
			x.set(of(t, keys), jInt(in(t, 0, 5)))
			c.Doc.A = append(c.Doc.A, x)
		default:
			c.Doc.A = append(c.Doc.A, genChild(t, o))
		}
	}
	if chance(t, 8) { // not an array
		c.Doc = genDoc(t, docOpt{depth: 1, root: of(t, []Kind{KObj, 0})})
	}
	c.Key = S(of(t, keys))
	if c.Doc.K == KArr && len(c.Doc.A) > 0 && chance(t, 15) {
		n := in(t, 1, 4)
		for i := 0; i < n; i++ {
			c.Twice = append(c.Twice, pick(t, len(c.Doc.A)))
		}
	}
	if chance(t, 20) {
		c.Every, c.In = in(t, 1, 12), of(t, []int{0, 1, 2, 7, 8, 12, 13, 33, 70})
	}
	c.Late = coin(t)
	if rarely(t, 1000) {
		c.Doc, c.Every = genHuge(t, hugeArrays), 0
		if chance(t, 40) {
			c.Less, c.Late = len(sortNames)-1, !chance(t, 15)
		}
	}
	return c
}

func hash32(salt uint32, s string) uint32 {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d", salt)
	h.Write([]byte(s))
	return h.Sum32()
}

func checkSort(c sortCase, st *Stat) error {
	holder := jv.NewObject()
	v, err := originV(c.Doc, c.Form)
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	holder.MustSet(v).At("x")
	doc := c.Doc
	if len(c.Twice) > 0 && doc.K == KArr && doc.huge == nil { // the same value several times
		doc = jArr(append([]*J{}, doc.A...)...)
		for _, i := range c.Twice {
			if i < len(c.Doc.A) {
				v.MustAppend(v.MustGet(i)).InTheEnd()
				doc.A = append(doc.A, c.Doc.A[i])
			}
		}
		st.Label("a value several times")
	}
	before := v.ForRangeArr()
	text := map[*jv.V]string{}
	index := map[*jv.V]int{}
	count := map[*jv.V]int{}
	for i, x := range before {
		b, err := x.Marshal(jv.OptSetSequence())
		if err != nil {
			return errf("%v: %v", c.Doc, err)
		}
		if count[x]++; count[x] == 1 {
			text[x], index[x] = string(b), i
		}
	}
	name := sortNames[c.Less]
	st.Label(name)
	strict := true // less is a strict weak order
	calls := 0
	n := 0
	var inside error
	if c.Every > 0 {
		st.Label("sorts in the less function")
	}
	var foreign *jv.V
	var less func(a, b *jv.V) bool
	switch name {
	case "number":
		less = func(a, b *jv.V) bool { return a.Float64() < b.Float64() }
	case "number desc":
		less = func(a, b *jv.V) bool { return a.Float64() > b.Float64() }
	case "string":
		less = func(a, b *jv.V) bool { return text[a] < text[b] }
	case "length":
		less = func(a, b *jv.V) bool { return len(text[a]) < len(text[b]) }
	case "kind":
		less = func(a, b *jv.V) bool { return a.ValueType() < b.ValueType() }
	case "constant false":
		less = func(a, b *jv.V) bool { return false }
	case "constant true":
		strict = false
		less = func(a, b *jv.V) bool { return true }
	case "random":
		strict = false
		less = func(a, b *jv.V) bool { calls++; return hash32(c.Salt+uint32(calls), "")&1 == 0 }
	case "by key":
		less = func(a, b *jv.V) bool { return a.MustGet(string(c.Key)).Int() < b.MustGet(string(c.Key)).Int() }
	case "index":
		less = func(a, b *jv.V) bool {
			return hash32(c.Salt, strconv.Itoa(index[a])) < hash32(c.Salt, strconv.Itoa(index[b]))
		}
	case "panics":
		strict = false
		left := int(c.Salt % 50)
		if n := len(before); c.Late && n > 1 { // n*log2(n) comparisons are to be expected
			left = int(uint64(c.Salt) % uint64(n*bits.Len(uint(n))))
		}
		less = func(a, b *jv.V) bool {
			if left--; left < 0 {
				panic("the less function panics")
			}
			return text[a] < text[b]
		}
	}
	if less == nil {
		v.SortArray(nil)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil && r != any("the less function panics") {
					panic(r)
				}
			}()
			v.SortArray(func(a, b *jv.V) bool {
				for _, x := range []*jv.V{a, b} {
					if _, ok := index[x]; !ok {
						foreign = x
						return false
					}
				}
				if n++; c.Every > 0 && n%c.Every == 0 && inside == nil {
					inside = sortInside(c.In, n)
				}
				return less(a, b)
			})
		}()
	}
	if inside != nil {
		return inside
	}
	if foreign != nil {
		return errf("sorting %v by %s: less is called with %v, which is not an element", c.Doc, name, foreign)
	}
	if holder.MustGet("x") != v {
		return errf("sorting replaces the value")
	}
	after := v.ForRangeArr()
	if c.Doc.K != KArr {
		return expectV("sorting what is not an array", v, c.Doc, cmpOpt{order: true})
	}
	if len(before) >= 2 {
		st.NT()
	}
	if c.Doc.huge != nil {
		st.Label("huge")
	}
	if len(after) != len(before) {
		return errf("sorting %v by %s gives %d elements", c.Doc, name, len(after))
	}
	m := jArr()
	for i, x := range after {
		k, ok := index[x]
		if count[x]--; !ok || count[x] < 0 {
			return errf("sorting %v by %s: element %d is %v, which was not an element, or comes twice", c.Doc, name, i, x)
		}
		if (less == nil || name == "constant false" && len(before) < 2) && x != before[i] {
			return errf("sorting %v without a less function moves element %d", c.Doc, k)
		}
		if strict && less != nil && i > 0 && less(x, after[i-1]) {
			return errf("sorting %v by %s: %v comes after %v", c.Doc, name, text[x], text[after[i-1]])
		}
		m.A = append(m.A, doc.A[k])
	}
	// whatever the order is, the elements are what they were
	return expectV("after sorting", v, m, cmpOpt{order: true})
}

// ---- P25: beta.Contains ----

type containsCase struct {
	Doc, Sub *J
	Path     []Step
	Form     int
	SubForm  int
	PF       int
}

func mContains(v, sub *J) bool {
	if sub == nil {
		return false
	}
	switch {
	case v.K == KObj && sub.K == KObj:
		for _, kv := range sub.O {
			if c := v.get(kv.K); c == nil || !mContains(c, kv.V) {
				return false
			}
		}
		return true
	case v.K == KArr && sub.K == KArr:
		for i := 0; i+len(sub.A) <= len(v.A); i++ {
			ok := true
			for k := range sub.A {
				ok = ok && equalJ(v.A[i+k], sub.A[k])
			}
			if ok {
				return true
			}
		}
		return false
	}
	return equalJ(v, sub)
}

// subset takes away parts of j: members of objects, ends of arrays.
func subset(t *rapid.T, j *J) *J {
	switch j.K {
	case KObj:
		res := jObj()
		for _, kv := range j.O {
			if chance(t, 60) {
				res.O = append(res.O, KV{kv.K, subset(t, kv.V)})
			}
		}
		return res
	case KArr:
		lo := in(t, 0, len(j.A))
		hi := in(t, lo, len(j.A))
		return jArr(j.clone().A[lo:hi]...)
	}
	return j.clone()
}

func genContains(t *rapid.T) containsCase {
	o := docOpt{depth: 3, num: genRatNum}
	if coin(t) { // many equal parts
		o.num = func(t *rapid.T) string { return strconv.Itoa(in(t, 0, 1)) }
		o.key = func(t *rapid.T) string { return of(t, []string{"a", "b"}) }
	}
	o.root = of(t, []Kind{KObj, KObj, KArr, KArr, 0})
	c := containsCase{Form: pick(t, 5), SubForm: pick(t, 8), PF: genForm(t)}
	c.Doc = genDoc(t, o)
	if o.root == KArr && chance(t, 50) { // an array with repetitions
		n := in(t, 0, 12)
		if chance(t, 25) {
			n = logUniform(t, 12, 150)
		}
		top := in(t, 1, 4)
		c.Doc = jArr()
		for i := 0; i < n; i++ {
			c.Doc.A = append(c.Doc.A, jInt(in(t, 0, top)))
		}
		if n > 3 && chance(t, 25) { // in another order
			i := in(t, 0, n-2)
			c.Sub = jArr(c.Doc.clone().A[i:min(n, i+in(t, 2, 6))]...)
			a := c.Sub.A
			switch pick(t, 3) {
			case 0:
				slices.Reverse(a)
			case 1:
				i := pick(t, len(a)-1)
				a[i], a[i+1] = a[i+1], a[i]
			default:
				a = append(a[1:], a[0])
				c.Sub.A = a
			}
			return c
		}
	}
	if rarely(t, 15000) {
		c.Doc = genHuge(t, hugeArrays[:2], hugeObjects)
		c.SubForm %= 5
		c.Sub = c.Doc
		switch pick(t, 4) {
		case 0:
			c.Sub = oneOff(t, c.Doc)
		case 1: // the end
			if n := len(c.Doc.A); n > 3 {
				c.Sub = jArr(c.Doc.clone().A[n-3:]...)
			} else if n := len(c.Doc.O); n > 3 {
				c.Sub = jObj(c.Doc.clone().O[n-3:]...)
			}
		}
		return c
	}
	target := c.Doc
	if chance(t, 35) {
		c.Path = genPath(t, c.Doc, 3, 10)
		if x := c.Doc.find(c.Path); x != nil {
			target = x
		}
	}
	switch pick(t, 6) {
	case 0:
		c.Sub = genDoc(t, docOpt{depth: 2, num: o.num, key: o.key})
	case 1:
		c.Sub = mutateJ(t, target.clone(), o)
	case 2:
		c.Sub = mutateJ(t, subset(t, target), o)
	case 3:
		c.Sub = variant(t, subset(t, target))
	case 4: // a subsequence which need not be contiguous
		c.Sub = subset(t, target)
		if c.Sub.K == KArr && len(c.Sub.A) > 2 {
			i := in(t, 1, len(c.Sub.A)-2)
			c.Sub.A = append(c.Sub.A[:i:i], c.Sub.A[i+1:]...)
		}
	default:
		c.Sub = subset(t, target)
	}
	return c
}

func checkContains(c containsCase, st *Stat) error {
	v, err := originV(c.Doc, c.Form)
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	target := c.Doc
	if len(c.Path) > 0 {
		target, _ = modelGet(c.Doc, c.Path)
	}
	want := target != nil && mContains(target, c.Sub)
	st.Label(map[bool]string{true: "contained", false: "not contained"}[want])
	if target != nil && !target.isLeaf() && target.K == c.Sub.K {
		st.NT()
	}
	var sub any
	switch {
	case c.SubForm == 5:
		if x, ok := native(c.Sub, c.PF*3); ok {
			sub = x
		}
	case c.SubForm >= 6:
		sub, err = originV(c.Sub, 1)
	default:
		sub, err = originV(c.Sub, c.SubForm)
	}
	if err != nil {
		return errf("%v: %v", c.Sub, err)
	}
	if sub == nil && c.Sub.K != KNull {
		sub = Build(c.Sub)
	}
	if c.SubForm == 7 { // with more, hence not contained, unless that is there, too
		if s := sub.(*jv.V); s.IsObject() && c.Sub.get("never there") == nil {
			s.MustSetNull().At("never there")
			want = false
		}
	}
	var path []any
	if len(c.Path) > 0 {
		path = paramForm(c.Path, c.PF)
	}
	if got := beta.Contains(v, sub, path...); got != want {
		return errf("Contains(%v, %v, %s) is %v", c.Doc, sub, pathString(c.Path), got)
	}
	if len(c.Path) == 0 {
		if !beta.Contains(v, v) && !c.Doc.has(func(x *J) bool { return x.K == KNaN }) {
			return errf("%v does not contain itself", c.Doc)
		}
		if beta.Contains(nil, sub) || beta.Contains(v, &jv.V{}) || beta.Contains(&jv.V{}, v) || beta.Contains(v, (*jv.V)(nil)) || beta.Contains(nil, nil) || beta.Contains(&jv.V{}, &jv.V{}) || beta.Contains(v, make(chan int)) {
			return errf("%v and something which does not exist: contained", c.Doc)
		}
	}
	if err := expectV("the value after Contains", v, c.Doc, cmpOpt{order: true}); err != nil {
		return err
	}
	if s, ok := sub.(*jv.V); ok && c.SubForm != 7 {
		return expectV("the subset after Contains", s, c.Sub, cmpOpt{order: true})
	}
	return nil
}

// ---- P26: constructors ----

type newCase struct {
	I      int64
	U      uint64
	F      string // as a text, for NaN and infinities
	Format byte
	Prec   int
	Str    S
	Bytes  S
	B      bool
	M      []KV2
}

// KV2 is a member of an M: the kind of Go value and what it holds.
type KV2 struct {
	K    S
	Kind int
}

type (
	nInt  int16
	nUint uint32
	nBool bool
	nF32  float32
	sInt  int
	sU8   uint8
	sBool bool
	sStr  string
	sF64  float64
)

// methods which say nothing about JSON
func (sInt) String() string             { return "a string" }
func (sInt) GoString() string           { return "a Go string" }
func (*sU8) String() string             { return "a string" }
func (sU8) Error() string               { return "an error" }
func (sBool) String() string            { return "false" }
func (sStr) String() string             { return "another" }
func (s sStr) Bytes() []byte            { return []byte("bytes") }
func (sF64) String() string             { return "1" }
func (sF64) Int() int                   { return 7 }
func (sF64) IsZero() bool               { return true }
func (sF64) Value() (any, error)        { return nil, nil }
func (sInt) IsNil() bool                { return true }
func (sStr) Format(f fmt.State, _ rune) { _, _ = f.Write([]byte("formatted")) }

func genNew(t *rapid.T) newCase {
	c := newCase{
		I:      int64(u64(t)) >> in(t, 0, 63),
		U:      u64(t) >> in(t, 0, 63),
		Format: of(t, []byte{'f', 'e', 'E', 'g', 'G', 'x', 'b', 'X', 0, 'F', ' '}),
		Prec:   of(t, []int{-1, -1, 0, 1, 2, 5, 10, 15, 16, 17, 18, 20, 25, 30, 60, -2}),
		Str:    S(genStr(t)),
		Bytes:  S(drawBytes(t, 20)),
		B:      coin(t),
	}
	if chance(t, 30) {
		c.Str = S(badBytes(t, string(c.Str)))
	}
	if rarely(t, 20) { // many bytes
		n := logUniform(t, 20, 5000)
		if coin(t) {
			n = of(t, []int{57, 76, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1026, 2048, 3000, 4095, 4096, 4097})
		}
		b := []byte(strings.Repeat(string(append([]byte(c.Bytes), byte(n))), n))[:n]
		b[pick(t, n)] ^= 0x55
		c.Bytes = S(b)
	}
	switch pick(t, 5) {
	case 0:
		c.F = of(t, []string{"NaN", "+Inf", "-Inf", "0", "-0", "5e-324", "1.7976931348623157e308", "1e21", "1e-6", "9.999999999999999e20", "9.999999e-7", "123456789012345680000", "16777217", "3.4028235e38", "1.1754944e-38"})
	case 1:
		c.F = strconv.FormatInt(c.I, 10)
	case 2:
		c.F = genNum(t)
	default:
		f := math.Float64frombits(u64(t))
		c.F = strconv.FormatFloat(f, 'g', -1, 64)
	}
	n := in(t, 0, 8)
	for i := 0; i < n; i++ {
		c.M = append(c.M, KV2{S(genKey(t)), pick(t, goKinds)})
	}
	return c
}

// goValue is a Go value of a basic kind, and what it stands for.
func (c newCase) goValue(kind int) (any, *J) {
	f := parseFloatAny(c.F)
	switch kind {
	case 0:
		return nil, jNull()
	case 1:
		return c.B, jBool(c.B)
	case 2:
		return nBool(c.B), jBool(c.B)
	case 3:
		return int(c.I), jNum(strconv.FormatInt(c.I, 10))
	case 4:
		return int8(c.I), jNum(strconv.FormatInt(int64(int8(c.I)), 10))
	case 5:
		return int16(c.I), jNum(strconv.FormatInt(int64(int16(c.I)), 10))
	case 6:
		return int32(c.I), jNum(strconv.FormatInt(int64(int32(c.I)), 10))
	case 7:
		return c.I, jNum(strconv.FormatInt(c.I, 10))
	case 8:
		return nInt(c.I), jNum(strconv.FormatInt(int64(int16(c.I)), 10))
	case 9:
		return uint(c.U), jNum(strconv.FormatUint(c.U, 10))
	case 10:
		return uint8(c.U), jNum(strconv.FormatUint(uint64(uint8(c.U)), 10))
	case 11:
		return uint16(c.U), jNum(strconv.FormatUint(uint64(uint16(c.U)), 10))
	case 12:
		return uint32(c.U), jNum(strconv.FormatUint(uint64(uint32(c.U)), 10))
	case 13:
		return c.U, jNum(strconv.FormatUint(c.U, 10))
	case 14:
		return nUint(c.U), jNum(strconv.FormatUint(uint64(uint32(c.U)), 10))
	case 15:
		return string(c.Str), jStr(string(c.Str))
	case 16:
		return namedKey(c.Str), jStr(string(c.Str))
	case 17:
		return f, &J{K: KNum, T: "f"}
	case 18:
		return float32(f), &J{K: KNum, T: "f32"}
	case 20:
		return sInt(c.I), jNum(strconv.FormatInt(c.I, 10))
	case 21:
		return sU8(c.U), jNum(strconv.FormatUint(uint64(uint8(c.U)), 10))
	case 22:
		return sBool(c.B), jBool(c.B)
	case 23:
		return sStr(c.Str), jStr(string(c.Str))
	case 24:
		return sF64(f), &J{K: KNum, T: "f"}
	case 25:
		return time.Duration(c.I), jNum(strconv.FormatInt(c.I, 10))
	case 26:
		return time.Month(c.I), jNum(strconv.FormatInt(c.I, 10))
	case 27:
		return fs.FileMode(c.U), jNum(strconv.FormatUint(uint64(uint32(c.U)), 10))
	case 28:
		return reflect.Kind(c.U), jNum(strconv.FormatUint(c.U, 10))
	default:
		return nF32(f), &J{K: KNum, T: "f32"}
	}
}

const goKinds = 29

func parseFloatAny(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		harnessBug("float %q", s)
	}
	return f
}

func sameBits(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// checkFloatV decides a number made from f; texts, if given, are the texts allowed.
func checkFloatV(what string, v *jv.V, f float64, bits int, texts ...string) error {
	if v.ValueType() != jv.Number || !v.IsNumber() {
		return errf("%s is of type %v", what, v.ValueType())
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		if g := v.Float64(); !sameFloat(g, f) {
			return errf("%s: Float64 is %v", what, g)
		}
		if b, err := v.Marshal(); err == nil {
			return errf("%s marshals as %q", what, b)
		}
		return nil
	}
	b, err := v.Marshal()
	if err != nil {
		return errf("%s does not marshal: %v", what, err)
	}
	s := string(b)
	if s != v.String() {
		return errf("%s marshals as %q but String() is %q", what, s, v.String())
	}
	if !isJSONNumber(s) {
		return errf("%s is %q, which is no JSON number", what, s)
	}
	if v.IsFloat() != numIsFloatText(s) || v.IsInteger() == v.IsFloat() {
		return errf("%s is %q: IsFloat %v, IsInteger %v", what, s, v.IsFloat(), v.IsInteger())
	}
	if len(texts) > 0 {
		ok := false
		for _, t := range texts {
			ok = ok || t == s
		}
		if !ok {
			return errf("%s is %q, want %q", what, s, texts)
		}
		g := v.Float64()
		if p, _ := strconv.ParseFloat(s, 64); !sameFloat(g, f) && !sameFloat(g, p) {
			return errf("%s: Float64 is %v", what, g)
		}
		return nil
	}
	p, err := strconv.ParseFloat(s, bits)
	if err != nil || !sameBits(p, f) {
		return errf("%s is %q, which is %v, not %v", what, s, p, f)
	}
	if g := v.Float64(); !sameBits(g, f) {
		return errf("%s: Float64 is %v", what, g)
	}
	if g := v.Float32(); !sameFloat(float64(g), float64(float32(f))) {
		return errf("%s: Float32 is %v", what, g)
	}
	if v.IsNegative() != (f < 0) || v.IsPositive() != (f >= 0) {
		return errf("%s: IsNegative %v, IsPositive %v", what, v.IsNegative(), v.IsPositive())
	}
	w, _ := json.Marshal(f)
	if bits == 32 {
		w, _ = json.Marshal(float32(f))
	}
	if s != string(w) {
		return errf("%s is %q, want %q as by encoding/json", what, s, w)
	}
	return nil
}

func checkNew(c newCase, st *Stat) error {
	st.NT()
	f := parseFloatAny(c.F)
	is := func(what string, v *jv.V, j *J) error {
		if err := expectV(what, v, j, cmpOpt{}); err != nil {
			return err
		}
		if err := checkConv(what, v, j); err != nil {
			return err
		}
		if j.K != KNum {
			return nil
		}
		if v.String() != j.T || v.MustMarshalString() != j.T {
			return errf("%s is %q, want %q", what, v.String(), j.T)
		}
		neg := strings.HasPrefix(j.T, "-")
		_, i64err := strconv.ParseInt(j.T, 10, 64)
		if v.IsNegative() != neg || v.IsPositive() == neg || !v.IsInteger() || v.IsFloat() || v.GreaterThanInt64Max() != (!neg && i64err != nil) {
			return errf("%s: IsNegative %v, IsPositive %v, IsInteger %v, IsFloat %v, GreaterThanInt64Max %v",
				what, v.IsNegative(), v.IsPositive(), v.IsInteger(), v.IsFloat(), v.GreaterThanInt64Max())
		}
		return nil
	}
	type nv struct {
		what string
		v    *jv.V
		j    *J
	}
	f2 := func(i int64) string { return strconv.FormatInt(i, 10) }
	u2 := func(u uint64) string { return strconv.FormatUint(u, 10) }
	mk := func() []nv {
		return []nv{
			{"NewInt", jv.NewInt(int(c.I)), jNum(f2(c.I))},
			{"NewInt64", jv.NewInt64(c.I), jNum(f2(c.I))},
			{"NewInt32", jv.NewInt32(int32(c.I)), jNum(f2(int64(int32(c.I))))},
			{"NewUint", jv.NewUint(uint(c.U)), jNum(u2(c.U))},
			{"NewUint64", jv.NewUint64(c.U), jNum(u2(c.U))},
			{"NewUint32", jv.NewUint32(uint32(c.U)), jNum(u2(uint64(uint32(c.U))))},
			{"NewBool", jv.NewBool(c.B), jBool(c.B)},
			{"NewNull", jv.NewNull(), jNull()},
			{"NewObject", jv.NewObject(), jObj()},
			{"NewObject of nil", jv.NewObject(nil), jObj()},
			{"NewArray", jv.NewArray(), jArr()},
			{"NewString", jv.NewString(string(c.Str)), jStr(string(c.Str))},
			{"NewBytes", jv.NewBytes([]byte(c.Bytes)), jStr(base64.StdEncoding.EncodeToString([]byte(c.Bytes)))},
			{"New of an int", jv.New(int(c.I)), jNum(f2(c.I))},
			{"New of a string", jv.New(string(c.Str)), jStr(string(c.Str))},
			{"New of a bool", jv.New(c.B), jBool(c.B)},
			{"New of nil", jv.New(nil), jNull()},
		}
	}
	made := mk()
	if v := jv.NewString(string(c.Str)); v.String() != string(c.Str) || !v.IsString() {
		return errf("NewString(%q) is %q", c.Str, v.String())
	}
	nb := jv.NewBytes([]byte(c.Bytes))
	if got := nb.Bytes(); string(got) != string(c.Bytes) || !nb.IsString() {
		return errf("NewBytes(%q) has the bytes %q", c.Bytes, got)
	}
	for kind := 0; kind < goKinds; kind++ {
		x, j := c.goValue(kind)
		v := jv.New(x)
		w, err := jv.Import(x)
		if err != nil {
			return errf("Import(%T %v): %v", x, x, err)
		}
		for _, v := range []*jv.V{v, w} {
			what := fmt.Sprintf("New(%T(%v))", x, x)
			switch j.T {
			default:
				if err := is(what, v, j); err != nil {
					return err
				}
			case "f", "f32":
				if j.K != KNum {
					if err := is(what, v, j); err != nil {
						return err
					}
				} else if j.T == "f" {
					if err := checkFloatV(what, v, f, 64); err != nil {
						return err
					}
				} else if err := checkFloatV(what, v, float64(float32(f)), 32); err != nil {
					return err
				}
			}
		}
	}
	for _, m := range made {
		if err := is(m.what, m.v, m.j); err != nil {
			return err
		}
	}
	// floats
	if err := checkFloatV(fmt.Sprintf("NewFloat64(%v)", f), jv.NewFloat64(f), f, 64); err != nil {
		return err
	}
	f32 := float64(float32(f))
	if err := checkFloatV(fmt.Sprintf("NewFloat32(%v)", f32), jv.NewFloat32(float32(f)), f32, 32); err != nil {
		return err
	}
	format := c.Format
	if !strings.ContainsRune("feEgG", rune(format)) || format == 0 {
		format = 'g'
	}
	if err := checkFloatV(fmt.Sprintf("NewFloat64f(%v, %q, %d)", f, c.Format, c.Prec), jv.NewFloat64f(f, c.Format, c.Prec), f, 64,
		strconv.FormatFloat(f, format, c.Prec, 64)); err != nil {
		return err
	}
	if err := checkFloatV(fmt.Sprintf("NewFloat32f(%v, %q, %d)", f32, c.Format, c.Prec), jv.NewFloat32f(float32(f), c.Format, c.Prec), f32, 32,
		strconv.FormatFloat(f32, format, c.Prec, 64), strconv.FormatFloat(f32, format, c.Prec, 32)); err != nil {
		return err
	}
	// objects from maps
	m := jv.M{}
	want := map[string]int{}
	for _, kv := range c.M {
		x, _ := c.goValue(kv.Kind)
		m[string(kv.K)] = x
		want[string(kv.K)] = kv.Kind
	}
	o := jv.NewObject(m)
	if !o.IsObject() || o.Len() != len(want) {
		return errf("NewObject(%v) is %v", m, o)
	}
	for k, kind := range want {
		x, j := c.goValue(kind)
		v, err := o.Get(k)
		if err != nil {
			return errf("NewObject(%v): %q: %v", m, k, err)
		}
		what := fmt.Sprintf("NewObject(%v): %q", m, k)
		switch kind {
		case 17, 24:
			err = checkFloatV(what, v, f, 64)
		case 18, 19:
			// a float32 is taken as the float64 of the same value
			g := reflect.ValueOf(x).Float()
			if g32 := v.Float64(); !sameBits(g32, g) && !(math.IsNaN(g)) {
				err = errf("%s: Float64 is %v, want %v", what, g32, g)
			}
		default:
			err = is(what, v, j)
		}
		if err != nil {
			return err
		}
	}
	// every call makes a new value, which may be changed
	others := [][]nv{mk(), mk()}
	for i, x := range others[0] {
		_ = x.v.UnmarshalJSON([]byte(of2(i%2 == 0, `["changed"]`, "-12345")))
	}
	for _, made := range append(others[1:], mk()) {
		for _, x := range made {
			if err := is(x.what+", after a change of another one", x.v, x.j); err != nil {
				return err
			}
		}
	}
	a, b := jv.NewObject(), jv.NewObject()
	a.MustSetInt(1).At("x")
	ar, br := jv.NewArray(), jv.NewArray()
	ar.MustAppendInt(1).InTheEnd()
	n1, n2 := jv.NewNull(), jv.NewNull()
	_ = n1.UnmarshalJSON([]byte("1"))
	t1, t2 := jv.NewBool(c.B), jv.NewBool(c.B)
	_ = t1.UnmarshalJSON([]byte("1"))
	s1, s2 := jv.NewString(""), jv.NewString("")
	_ = s1.UnmarshalJSON([]byte("1"))
	i1, i2 := jv.NewInt64(0), jv.NewInt64(0)
	_ = i1.UnmarshalJSON([]byte("true"))
	if b.Len() != 0 || br.Len() != 0 || !n2.IsNull() || !t2.IsBoolean() || !s2.IsString() || !i2.IsNumber() {
		return errf("a change of one new value changes another one")
	}
	return nil
}

func of2(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func init() {
	register(spec[iterCase]{
		ID: "P23", Quick: 18000,
		Rule:   "a value made by a history of sets, appends and deletions, of which every container is iterated in all seven ways, fully, up to an early end, and nested; the oracle is the model's list of members in set order, and identity with what Get returns; then members and the container are changed in the loops; non-trivial: at least two members",
		Assume: []string{"containers are not changed during RangeObjects and RangeArray, only during the loops over copies"},
		Gen:    genIter, Check: checkIter,
	})
	register(spec[sortCase]{
		ID: "P24", Quick: 48000,
		Rule: "an array of up to 120 elements (or another value), sorted by one of twelve less functions, among them inconsistent and panicking ones; the oracle: the same elements by identity and content, each exactly once, in an order which less does not contradict; non-trivial: at least two elements",
		Gen:  genSort, Check: checkSort,
	})
	register(spec[containsCase]{
		ID: "P25", Quick: 180000,
		Rule:   "a value, a path and a subset (parts of the value, with one change or respelled, or unrelated), given as *V or Go value; the oracle is a model of containment; non-trivial: both are objects or both arrays",
		Assume: []string{"decimal exponents within 2000"},
		Gen:    genContains, Check: checkContains,
	})
	register(spec[newCase]{
		ID: "P26", Quick: 24000,
		Rule:   "arguments of all constructors: integers of all widths, floats by bits and at the limits of formats, formats and precisions, strings, bytes, maps of basic values; the oracle is strconv, encoding/base64 and the argument itself; all cases are non-trivial",
		Assume: []string{"Float64() of NewFloat64f is the argument or the number of the text"},
		Gen:    genNew, Check: checkNew,
	})
}
