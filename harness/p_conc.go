package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"pgregory.net/rapid"
)

// ---- P22: concurrent use ----

// readOp is a read of a shared value.
type readOp struct {
	K    string
	P    []Step    `json:",omitempty"`
	PF   int       `json:",omitempty"` // the form in which the path is given
	Opts []OptSpec `json:",omitempty"`
}

// routine is what one goroutine does: reads of the shared value, then something with
// values of its own.
type routine struct {
	Reads  []readOp
	Rounds int
	Hist   *histCase   `json:",omitempty"`
	Import *importCase `json:",omitempty"`
	Parse  *parseCase  `json:",omitempty"`
	Cmp    *cmpCase    `json:",omitempty"`
	Sort   *sortCase   `json:",omitempty"`
	API    *apiCase    `json:",omitempty"`
}

type concCase struct {
	Doc     *J
	Other   *J
	Form    int
	Warm    int       `json:",omitempty"` // first read all in this way, in one goroutine
	Toggle  bool      // one more goroutine switches the default options between A and B
	A, B    []OptSpec `json:",omitempty"`
	Flips   int       `json:",omitempty"`
	Routine []routine
}

var readKinds = []string{"marshal", "marshal", "marshal", "marshalString", "mustMarshal", "default", "get", "get", "walk", "ranges", "equal", "compare", "export", "copy", "contains", "string", "struct", "iter", "marshalJSON"}

func genConc(t *rapid.T) concCase {
	c := concCase{Form: pick(t, 5), Toggle: chance(t, 35)}
	o := docOpt{depth: 3, root: of(t, []Kind{KObj, KObj, KObj, KArr}), wide: true}
	c.Doc = genDoc(t, o)
	switch pick(t, 3) {
	case 0:
		c.Other = c.Doc.clone()
	case 1:
		c.Other = subset(t, c.Doc)
	default:
		c.Other = genDoc(t, o)
	}
	if c.Toggle {
		c.A, c.B = genOpts(t, optKinds, 3, c.Doc), genOpts(t, optKinds, 3, c.Doc)
		c.Flips = in(t, 1, 40)
	}
	if coin(t) {
		c.Warm = in(t, 1, 8)
		if coin(t) {
			c.Warm = 8
		}
	}
	var methods []string // which all goroutines call on values of their own
	if !c.Toggle && chance(t, 40) {
		for n := in(t, 1, 6); n > 0; n-- {
			methods = append(methods, genMethod(t))
		}
	}
	n := in(t, 2, 4)
	pool := [][]OptSpec{genOpts(t, optKinds, 3, c.Doc), {genOpt(t, orderKinds, c.Doc)}}
	for i := 0; i < n; i++ {
		r := routine{Rounds: in(t, 1, 3)}
		k := in(t, 1, 6)
		for x := 0; x < k; x++ {
			op := readOp{K: of(t, readKinds)}
			switch op.K {
			case "marshal", "marshalString", "mustMarshal":
				if op.Opts = of(t, pool); coin(t) {
					op.Opts = genOpts(t, optKinds, 3, c.Doc)
				}
			case "get", "contains", "string":
				op.P, op.PF = genPath(t, c.Doc, 3, 10), genForm(t)
			}
			r.Reads = append(r.Reads, op)
		}
		if !c.Toggle && i > 0 && chance(t, 30) { // the same as another one
			a := c.Routine[0]
			r.Hist, r.Import, r.Parse, r.Cmp, r.Sort, r.API = a.Hist, a.Import, a.Parse, a.Cmp, a.Sort, a.API
			if coin(t) {
				r.Reads = a.Reads
			}
		} else if !c.Toggle {
			k := pick(t, 6)
			if methods != nil {
				k = 6
			}
			switch k {
			case 6:
				x := genFewMethods(t, methods)
				r.API = &x
			case 0:
				h := genHist([]string{"set", "append", "prepend", "before", "after", "delete"}, genFewKeys)(t)
				r.Hist = &h
			case 1:
				h := genCaseless(t)
				r.Hist = &h
			case 2:
				x := genImport(t)
				r.Import = &x
			case 3:
				x := genParse(t)
				r.Parse = &x
			case 4:
				x := genCmp(t)
				r.Cmp = &x
			default:
				x := genSort(t)
				r.Sort = &x
			}
		}
		c.Routine = append(c.Routine, r)
	}
	return c
}

// sharedOpts has one Option for every different one of a case.
type sharedOpts map[string]jv.Option

func (s sharedOpts) options(os []OptSpec) []jv.Option {
	var res []jv.Option
	for _, o := range os {
		res = append(res, s[string(mustJSON(o))])
	}
	return res
}

func (c concCase) options() sharedOpts {
	res := sharedOpts{}
	for _, r := range c.Routine {
		for _, op := range r.Reads {
			for _, o := range op.Opts {
				res[string(mustJSON(o))] = o.option()
			}
		}
	}
	return res
}

// do performs a read and tells what it gave, as a string which is the same every time.
func (op readOp) do(v, other *jv.V, defs [][]OptSpec, shared sharedOpts) (res string) {
	ordered := func(opts []OptSpec) bool {
		ok := true
		for _, d := range defs {
			ok = ok && config(append(d[:len(d):len(d)], opts...)).ordered()
		}
		return ok
	}
	set := func(opts []OptSpec) []jv.Option {
		res := shared.options(opts)
		if !ordered(opts) {
			res = append(res, jv.OptSetSequence())
		}
		return res
	}
	out := func(x any, err error) string { return fmt.Sprintf("%v, %v", x, err) }
	at := func() *jv.V {
		if len(op.P) == 0 {
			return v
		}
		ps := paramForm(op.P, op.PF)
		return v.MustGet(ps[0], ps[1:]...)
	}
	switch op.K {
	case "marshal":
		b, err := v.Marshal(set(op.Opts)...)
		return out(string(b), err)
	case "marshalString":
		s, err := v.MarshalString(set(op.Opts)...)
		return out(s, err)
	case "mustMarshal":
		return string(v.MustMarshal(set(op.Opts)...))
	case "default", "marshalJSON":
		var b []byte
		var err error
		if op.K == "default" {
			b, err = v.Marshal()
		} else if b, err = v.MarshalJSON(); err == nil {
			b, err = json.Marshal(json.RawMessage(b))
		}
		if ordered(nil) || err != nil {
			return out(string(b), err)
		}
		// an order of keys was not promised
		j, perr := ParseStrict(b)
		if perr != nil {
			return "bad text " + string(b)
		}
		return "some order of " + sortKeys(j).String()
	case "get":
		if len(op.P) == 0 {
			return out(v.Len(), nil)
		}
		ps := paramForm(op.P, op.PF)
		p, q := ps[0], ps[1:]
		x, err := v.Get(p, q...)
		res := out(x.ValueType(), err)
		y := v.MustGet(p, q...)
		if x != y && !(isNotExist(x) && isNotExist(y)) {
			res += " differs"
		}
		s, err := v.GetString(p, q...)
		res += out(s, err)
		i, err := v.GetInt(p, q...)
		res += out(i, err)
		u, err := v.GetUint64(p, q...)
		res += out(u, err)
		f, err := v.GetFloat64(p, q...)
		res += out(f, err)
		b, err := v.GetBool(p, q...)
		res += out(b, err)
		n := v.GetNull(p, q...)
		ob, err := v.GetObject(p, q...)
		res += out(ob.Len(), err)
		ar, err := v.GetArray(p, q...)
		res += out(ar.Len(), err)
		by, err := v.GetBytes(p, q...)
		return res + out(by, err) + out(n, nil)
	case "walk":
		j, err := Read(v)
		return out(j, err)
	case "ranges":
		var b strings.Builder
		keys := []string{}
		v.RangeObjects(func(k string, x *jv.V) bool { keys = append(keys, k+x.ValueType().String()); return true })
		sort.Strings(keys)
		fmt.Fprintf(&b, "%q", keys)
		v.RangeObjectsBySetSequence(func(k string, x *jv.V) bool { fmt.Fprintf(&b, "%q%v", k, x.Len()); return b.Len()%17 > 0 })
		v.RangeArray(func(i int, x *jv.V) bool { fmt.Fprintf(&b, "%d%v", i, x.Len()); return b.Len()%17 > 0 })
		fmt.Fprint(&b, len(v.ForRangeArr()), len(v.ForRangeObj()))
		return b.String()
	case "iter":
		keys := []string{}
		for x := range v.IterObjects() {
			keys = append(keys, x.K+x.V.ValueType().String())
		}
		sort.Strings(keys)
		n := 0
		for x := range v.IterArray() {
			n += x.I + x.V.Len()
		}
		return fmt.Sprint(keys, n)
	case "equal":
		return fmt.Sprint(v.Equal(other), other.Equal(v), v.Equal(v))
	case "compare":
		var b strings.Builder
		for i, x := range v.ForRangeArr() {
			for k, y := range other.ForRangeArr() {
				if i > 4 || k > 4 {
					break
				}
				fmt.Fprint(&b, x.GreaterThan(y), x.LessThan(y), x.GreaterThanOrEqual(y), x.LessThanOrEqual(y), x.Equal(y))
			}
		}
		return b.String()
	case "export":
		var x any
		err := v.Export(&x)
		b, _ := json.Marshal(x)
		return out(string(b), err)
	case "copy":
		w, err := jv.Import(v)
		if err != nil || w == v {
			return out(w == v, err)
		}
		s := readOp{K: "walk"}.do(w, other, defs, shared)
		w.MustSetInt(1).At("new key of the copy")
		w.Caseless().MustGet("NEW KEY of the copy")
		w.MustAppendInt(1).InTheBeginning()
		return s
	case "struct":
		w, err := jv.Import(struct {
			X *jv.V `json:"x"`
			Y []*jv.V
			Z map[string]*jv.V `json:",omitempty"`
		}{v, []*jv.V{v, other}, map[string]*jv.V{"z": v}})
		if err != nil {
			return err.Error()
		}
		return readOp{K: "walk"}.do(w, other, defs, shared)
	case "contains":
		x := at()
		return fmt.Sprint(beta.Contains(v, other), beta.Contains(v, x, paramForm(op.P, op.PF)...), beta.Contains(other, x))
	case "string":
		x := at()
		if x.IsObject() || x.IsArray() {
			return fmt.Sprint(len(x.String()))
		}
		return fmt.Sprint(x.String(), x.Int(), x.Uint64(), x.Float64(), x.Bool(), x.Bytes(), x.IsFloat(), x.IsNegative(), x.GreaterThanInt64Max())
	}
	harnessBug("read %q", op.K)
	return ""
}

func sortKeys(j *J) *J {
	res := j.clone()
	res.walk(func(x *J, _ int) {
		sort.SliceStable(x.O, func(a, b int) bool { return x.O[a].K < x.O[b].K })
	})
	return res
}

func (r routine) private(trace []string) error {
	st := newStat()
	switch {
	case r.API != nil:
		got, err := apiTrace(*r.API)
		if err != nil {
			return err
		}
		for i := range trace {
			if i >= len(got) || got[i] != trace[i] {
				return errf("call %d: %s, alone %s", i, got[min(i, len(got)-1):], trace[i])
			}
		}
		return nil
	case r.Hist != nil:
		return checkHist(false, func(Op, errClass) bool { return false })(*r.Hist, st)
	case r.Import != nil:
		return checkImport(*r.Import, st)
	case r.Parse != nil:
		return checkParse(*r.Parse, st)
	case r.Cmp != nil:
		return checkCmp(*r.Cmp, st)
	case r.Sort != nil:
		return checkSort(*r.Sort, st)
	}
	return nil
}

func checkConc(c concCase, st *Stat) (err error) {
	make2 := func() (*jv.V, *jv.V) {
		v, e := originV(c.Doc, c.Form)
		if e != nil {
			err = errf("%v: %v", c.Doc, e)
		}
		o, e := originV(c.Other, c.Form)
		if e != nil {
			err = errf("%v: %v", c.Other, e)
		}
		return v, o
	}
	// what every read gives when nothing else is going on, on values of its own
	v, other := make2()
	if err != nil {
		return err
	}
	defaults := [][]OptSpec{nil}
	if c.Toggle {
		defaults = [][]OptSpec{c.A, c.B}
		defer jv.ResetDefaultMarshalOptions()
	}
	want := make([][][2]string, len(c.Routine))
	alone, shared := c.options(), c.options()
	for d, def := range defaults {
		if c.Toggle {
			jv.SetDefaultMarshalOptions(options(def)...)
		}
		for i, r := range c.Routine {
			if want[i] == nil {
				want[i] = make([][2]string, len(r.Reads))
			}
			for k, op := range r.Reads {
				want[i][k][d] = op.do(v, other, defaults, alone)
				if len(defaults) == 1 {
					want[i][k][1] = want[i][k][0]
				}
			}
		}
	}
	traces := make([][]string, len(c.Routine))
	for i, r := range c.Routine {
		if r.API != nil {
			st.Label("few methods")
			if traces[i], err = apiTrace(*r.API); err != nil {
				return err
			}
		}
	}
	v, other = make2()
	if err != nil {
		return err
	}
	if c.Warm > 0 {
		if err := touchAll(v, c.Doc, c.Warm); err != nil {
			return err
		}
		if err := touchAll(other, c.Other, c.Warm); err != nil {
			return err
		}
		st.Label("read before")
	}
	if c.Toggle {
		jv.SetDefaultMarshalOptions(options(c.A)...)
		st.Label("defaults change")
	}
	if len(c.Routine) >= 2 {
		st.NT()
	}

	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make(chan error, len(c.Routine)+1)
	bugs := make(chan harnessError, len(c.Routine)+1)
	run := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if he, ok := r.(harnessError); ok {
						bugs <- he
						return
					}
					errs <- errf("panic: %v\n%s", r, debug.Stack())
				}
			}()
			<-start
			if err := f(); err != nil {
				errs <- err
			}
		}()
	}
	for i, r := range c.Routine {
		i, r := i, r
		for _, op := range r.Reads {
			st.Label(op.K)
		}
		run(func() error {
			for n := 0; n < r.Rounds; n++ {
				for k, op := range r.Reads {
					if got := op.do(v, other, defaults, shared); got != want[i][k][0] && got != want[i][k][1] {
						return errf("goroutine %d, %s at %s with %s of %v: got %q, alone %q or %q", i, op.K, pathString(op.P), mustJSON(op.Opts), c.Doc, got, want[i][k][0], want[i][k][1])
					}
				}
				if err := r.private(traces[i]); err != nil {
					return errf("goroutine %d, with values of its own: %v", i, err)
				}
			}
			return nil
		})
	}
	if c.Toggle {
		run(func() error {
			for i := 0; i < c.Flips; i++ {
				jv.SetDefaultMarshalOptions(options([][]OptSpec{c.B, c.A}[i%2])...)
			}
			return nil
		})
	}
	close(start)
	wg.Wait()
	select {
	case he := <-bugs:
		panic(he)
	default:
	}
	select {
	case err := <-errs:
		return err
	default:
	}
	if err := expectV("the shared value afterwards", v, c.Doc, cmpOpt{order: true}); err != nil {
		return err
	}
	return expectV("the other shared value afterwards", other, c.Other, cmpOpt{order: true})
}

func init() {
	register(spec[concCase]{
		ID: "P22", Race: true, Quick: 2400,
		Rule:   "two to four goroutines which read a shared value in all ways (marshal with options, getters, iterations, comparisons, export, copies) and then work on values of their own (the checks of P01, P07, P10, P12, P14, P24, or calls of a few methods drawn from all, whose results are compared with those of the same calls alone), while, in some cases, another one switches the default options between two sets; run with the race detector; the oracle: no race, every read gives what it gives alone (under one of the two sets of defaults), private work is unaffected; non-trivial: at least two goroutines",
		Assume: []string{"reads without regard to case are not done on shared values: they are documented as not safe", "the schedules are those of the Go scheduler; the race detector finds unordered accesses whatever the schedule"},
		Gen:    genConc, Check: checkConc,
	})
}
