package main

import (
	"encoding/base64"
	"errors"
	"fmt"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// errClass is what a failing operation promises.
type errClass int

const (
	eNone errClass = iota
	eAny           // some error
	eNotFound
	eOutOfRange
	eType
	eNotArray
	eMultiple
	eUninit
	eNumber
)

var classErr = map[errClass]error{
	eNotFound: jv.ErrNotFound, eOutOfRange: jv.ErrOutOfRange, eType: jv.ErrTypeNotMatch, eNotArray: jv.ErrNotArrayValue,
	eMultiple: jv.ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven, eUninit: jv.ErrValueUninitialized, eNumber: jv.ErrParseNumberFromString,
}

func (e errClass) check(err error) error {
	switch {
	case e == eNone:
		if err != nil {
			return errf("unexpected error %q", err)
		}
	case err == nil:
		if e == eAny {
			return errf("no error")
		}
		return errf("no error, want %q", classErr[e])
	case e != eAny && !errors.Is(err, classErr[e]):
		return errf("error %q, want %q", err, classErr[e])
	}
	return nil
}

// modelGet follows a path and tells why it fails.
func modelGet(j *J, p []Step) (*J, errClass) {
	cur := j
	for _, s := range p {
		switch {
		case cur.isLeaf():
			return nil, eType
		case (cur.K == KObj) != (s.Key != nil):
			return nil, eAny
		}
		next := cur.child(s)
		if next == nil {
			if cur.K == KObj {
				return nil, eNotFound
			}
			return nil, eOutOfRange
		}
		cur = next
	}
	return cur, eNone
}

// getter is the part of the API shared by *V and Caseless.
type getter = jv.Caseless

// checkGetters compares every getter for a path; want is nil when the path fails with ec.
func checkGetters(v getter, p []any, want *J, ec *errClass) error {
	e := eNone
	if ec != nil {
		e = *ec
	}
	return checkGettersE(v, p, want, e)
}

func checkGettersE(v getter, p []any, want *J, e errClass) error {
	p0, rest := p[0], p[1:]
	what := fmt.Sprintf("%v", p)
	got, err := v.Get(p0, rest...)
	if cerr := e.check(err); cerr != nil {
		return errf("Get(%s): %v", what, cerr)
	}
	must := v.MustGet(p0, rest...)
	if want == nil {
		if !isNotExist(got) || !isNotExist(must) {
			return errf("Get(%s): a value %v comes with the error %v", what, got, err)
		}
	} else {
		if got != must {
			return errf("MustGet(%s) returns something else than Get", what)
		}
		if err := expectV("Get("+what+")", got, want, cmpOpt{}); err != nil {
			return err
		}
	}
	num := eNone
	boolE, strE, objE, arrE, nullE, byteE := e, e, e, e, e, e
	wn, wb, ws, wbytes := zeroView, false, "", []byte{}
	if want != nil {
		wn, _ = numbersOf(want)
		wb = boolOf(want)
		num, boolE, strE, objE, arrE, nullE, byteE = eType, eType, eType, eType, eType, eType, eType
		switch want.K {
		case KNum, KNaN, KPInf, KNInf:
			num = eNone
		case KStr:
			if _, ok := strNumber(want.T); !ok {
				num = eNumber
			}
			ws = want.T
			strE = eNone
			if b, err := base64.StdEncoding.DecodeString(want.T); err == nil {
				byteE, wbytes = eNone, b
			} else {
				byteE = eAny
			}
		case KTrue, KFalse:
			boolE = eNone
		case KNull:
			nullE = eNone
		case KObj:
			objE = eNone
		case KArr:
			arrE = eNone
		}
	} else {
		num = e
	}
	var firstErr error
	note := func(name string, c errClass, err error) {
		if cerr := c.check(err); cerr != nil && firstErr == nil {
			firstErr = errf("%s(%s) of %v: %v", name, what, want, cerr)
		}
	}
	src := numberSource{
		func() int { x, err := v.GetInt(p0, rest...); note("GetInt", num, err); return x },
		func() uint { x, err := v.GetUint(p0, rest...); note("GetUint", num, err); return x },
		func() int64 { x, err := v.GetInt64(p0, rest...); note("GetInt64", num, err); return x },
		func() uint64 { x, err := v.GetUint64(p0, rest...); note("GetUint64", num, err); return x },
		func() int32 { x, err := v.GetInt32(p0, rest...); note("GetInt32", num, err); return x },
		func() uint32 { x, err := v.GetUint32(p0, rest...); note("GetUint32", num, err); return x },
		func() float64 { x, err := v.GetFloat64(p0, rest...); note("GetFloat64", num, err); return x },
		func() float32 { x, err := v.GetFloat32(p0, rest...); note("GetFloat32", num, err); return x },
	}
	if err := src.check("getters of "+what, wn); err != nil {
		if want != nil && want.f32 {
			wn.f = float64(float32(wn.f))
			if src.check("", wn) == nil {
				err = nil
			}
		}
		if err != nil {
			return err
		}
	}
	b, err := v.GetBool(p0, rest...)
	note("GetBool", boolE, err)
	if b != wb {
		return errf("GetBool(%s) of %v: %v", what, want, b)
	}
	s, err := v.GetString(p0, rest...)
	note("GetString", strE, err)
	if s != ws {
		return errf("GetString(%s) of %v: %q", what, want, s)
	}
	by, err := v.GetBytes(p0, rest...)
	note("GetBytes", byteE, err)
	if string(by) != string(wbytes) || by == nil {
		return errf("GetBytes(%s) of %v: %q", what, want, by)
	}
	note("GetNull", nullE, v.GetNull(p0, rest...))
	o, err := v.GetObject(p0, rest...)
	note("GetObject", objE, err)
	if objE == eNone && o != got || objE != eNone && !isNotExist(o) {
		return errf("GetObject(%s) of %v: %v", what, want, o)
	}
	a, err := v.GetArray(p0, rest...)
	note("GetArray", arrE, err)
	if arrE == eNone && a != got || arrE != eNone && !isNotExist(a) {
		return errf("GetArray(%s) of %v: %v", what, want, a)
	}
	return firstErr
}

// ---- P05 ----

type getCase struct {
	Doc   *J
	Paths [][]Step
	Form  int
	Pform int
	Bad   int
	Warm  int `json:",omitempty"` // as in histCase
}

type namedKey string
type namedInt int
type namedUint uint64
type namedSlice []any

type uintptrLike uint64

type (
	namedInt8   int8
	namedUint8  uint8
	namedBytes  []byte
	namedInts   []int32
	namedKeys   []namedKey
	namedUint16 uint16
)

// loudKey is a key whose methods say something else than what it is.
type loudKey string

func (k loudKey) String() string               { return "loud " + string(k) }
func (k loudKey) GoString() string             { return "loud" }
func (k loudKey) MarshalText() ([]byte, error) { return []byte("loud"), nil }
func (k loudKey) MarshalJSON() ([]byte, error) { return []byte(`"loud"`), nil }
func (k *loudKey) Error() string               { return "loud" }

// loudInt is an index of that kind.
type loudInt int

func (i loudInt) String() string               { return "7" }
func (i loudInt) Int() int                     { return 7 }
func (i loudInt) MarshalText() ([]byte, error) { return []byte("7"), nil }

// intSlice gives indexes as a slice or an array of one integer type; nil if they do not fit.
func intSlice[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](is []int, array bool) any {
	var res []T
	for _, i := range is {
		if int(T(i)) != i || (T(i) < 0) != (i < 0) {
			return nil
		}
		res = append(res, T(i))
	}
	if array {
		switch len(res) {
		case 1:
			return [1]T(res)
		case 2:
			return [2]T(res)
		case 3:
			return [3]T(res)
		}
	}
	return res
}

// paramForms gives the ways to pass a path.
func paramForm(p []Step, form int) []any {
	ps := params(p)
	allKeys, allIdx := true, true
	for _, s := range p {
		if s.Key == nil {
			allKeys = false
		} else {
			allIdx = false
		}
		if s.W {
			allIdx = false
		}
	}
	switch form % 7 {
	case 1:
		return []any{ps}
	case 6:
		if form < 7 {
			break
		}
		for i, s := range p {
			if s.Key != nil {
				ps[i] = loudKey(*s.Key)
			} else if !s.W {
				ps[i] = loudInt(*s.Index)
			}
		}
		if form%2 == 0 {
			return []any{ps}
		}
	case 2:
		if allKeys {
			var ss []string
			var nk namedKeys
			var lk []loudKey
			for _, s := range p {
				ss = append(ss, string(*s.Key))
				nk = append(nk, namedKey(*s.Key))
				lk = append(lk, loudKey(*s.Key))
			}
			switch form / 7 {
			case 1, 2:
				return []any{nk}
			case 3, 4:
				return []any{lk}
			}
			return []any{ss}
		}
		if allIdx {
			var is []int
			for _, s := range p {
				is = append(is, *s.Index)
			}
			var x any
			arr := form >= 7*12
			switch form / 7 % 12 {
			case 1:
				x = intSlice[int8](is, arr)
			case 2:
				x = intSlice[int16](is, arr)
			case 3:
				x = intSlice[int32](is, arr)
			case 4:
				x = intSlice[int64](is, arr)
			case 5:
				x = intSlice[uint](is, arr)
			case 6:
				x = intSlice[uint8](is, arr)
				if b, ok := x.([]byte); ok && arr {
					x = namedBytes(b)
				}
			case 7:
				x = intSlice[uint16](is, arr)
			case 8:
				x = intSlice[uint32](is, arr)
			case 9:
				x = intSlice[uint64](is, arr)
			case 10:
				x = intSlice[loudInt](is, arr)
			case 11:
				if y, ok := intSlice[int32](is, false).([]int32); ok {
					x = namedInts(y)
				}
			}
			if x != nil {
				return []any{x}
			}
			return []any{is}
		}
	case 3:
		switch len(ps) {
		case 1:
			return []any{[1]any{ps[0]}}
		case 2:
			return []any{[2]any{ps[0], ps[1]}}
		case 3:
			return []any{[3]any{ps[0], ps[1], ps[2]}}
		}
	case 4:
		return []any{namedSlice(ps)}
	case 5:
		for i, s := range p {
			if s.Key != nil {
				ps[i] = namedKey(*s.Key)
			} else if s.W {
				ps[i] = namedUint(*s.Index)
			} else if x := *s.Index; form >= 7 && x >= 0 && x < 128 {
				ps[i] = []any{namedInt8(x), namedUint8(x), namedUint16(x), rune(x), uintptrLike(x)}[form/7%5]
			} else {
				ps[i] = namedInt(*s.Index)
			}
		}
	}
	return ps
}

// genForm draws a way to pass a path.
func genForm(t *rapid.T) int {
	if chance(t, 60) {
		return pick(t, 7)
	}
	return pick(t, 7*24)
}

func genGet(t *rapid.T) getCase {
	c := getCase{Form: pick(t, 5), Pform: genForm(t), Bad: pick(t, 10)}
	o := defDoc()
	if !chance(t, 5) {
		o.root = of(t, []Kind{KObj, KObj, KArr})
	}
	c.Doc = genDoc(t, o)
	if rarely(t, 3000) {
		c.Doc = genHuge(t, hugeArrays, hugeObjects, hugeOthers[:2])
	}
	if chance(t, 10) {
		widen(t, c.Doc)
	}
	if chance(t, 25) {
		c.Warm = in(t, 1, 8)
		if coin(t) {
			c.Warm = 8
		}
	}
	n := in(t, 1, 4)
	for i := 0; i < n; i++ {
		p := genPath(t, c.Doc, 4, 8)
		if chance(t, 12) {
			for i, s := range p {
				if s.Key != nil && coin(t) {
					p[i] = kStep(recase(t, string(*s.Key)))
				}
			}
		}
		c.Paths = append(c.Paths, p)
	}
	return c
}

var badParams = []any{nil, 1.0, true, struct{}{}, map[string]int{}, []any{}, []string{}, [0]int{}, complex(1, 0), (*int)(nil)}

func checkGet(c getCase, st *Stat) error {
	v, err := originV(c.Doc, c.Form)
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	if c.Warm > 0 {
		if err := touchAll(v, c.Doc, c.Warm); err != nil {
			return errf("reading %v: %v", c.Doc, err)
		}
		st.Label("read before")
	}
	for _, p := range c.Paths {
		if len(p) == 0 {
			continue
		}
		want, ec := modelGet(c.Doc, p)
		if want != nil {
			st.Label("found")
			if len(p) >= 2 {
				st.NT()
			}
		} else {
			st.Label("fails")
		}
		ps := paramForm(p, c.Pform)
		if err := checkGettersE(v, ps, want, ec); err != nil {
			return errf("in %v: %v", c.Doc, err)
		}
		if want == nil {
			continue
		}
		// step by step is the same value
		step := v
		for _, s := range params(p) {
			if step, err = step.Get(s); err != nil {
				return errf("in %v, step %v of %s: %v", c.Doc, s, pathString(p), err)
			}
		}
		if step != v.MustGet(ps[0], ps[1:]...) {
			return errf("in %v: %s step by step is another value", c.Doc, pathString(p))
		}
		// an exact lookup wins also without regard to case
		if err := checkGettersE(v.Caseless(), ps, want, eNone); err != nil {
			return errf("in %v, caseless: %v", c.Doc, err)
		}
		// a parameter of no supported type
		bad := badParams[c.Bad]
		full := append(params(p), bad)
		e := eAny
		if err := checkGettersE(v, full, nil, e); err != nil {
			return errf("in %v: %v", c.Doc, err)
		}
		// a slice followed by more
		if err := checkGettersE(v, []any{params(p), 0}, nil, eMultiple); err != nil {
			return errf("in %v: %v", c.Doc, err)
		}
		if err := checkGettersE(v, []any{params(p), "a"}, nil, eMultiple); err != nil {
			return errf("in %v: %v", c.Doc, err)
		}
	}
	return expectV("after reading", v, c.Doc, cmpOpt{order: true})
}

func init() {
	register(spec[getCase]{
		ID:    "P05",
		Rule:  "a case is a document made in one of five ways and up to four paths, mostly existing, passed in seven forms (variadic, slices, arrays, named types, all integer types); every getter's value and error class is compared with the reference; non-trivial: an existing path of two or more steps",
		Quick: 80000,
		Gen:   genGet, Check: checkGet,
		Assume: []string{"which error an unsupported kind of parameter gives is unspecified"},
	})
}
