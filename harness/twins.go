package main

import (
	"encoding/json"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

// Types which differ although they have the same name (and thus the same String and the same
// package path): those declared in functions have no methods.

type twinA struct{ X int }

func (twinA) MarshalJSON() ([]byte, error) { return []byte(`"A"`), nil }

type twinB struct{ X int }

func (twinB) MarshalJSON() ([]byte, error) { return []byte(`"B"`), nil }

type twinC string

func (c twinC) MarshalText() ([]byte, error) { return []byte("C" + string(c)), nil }

type twinD string

func (c twinD) MarshalText() ([]byte, error) { return []byte("D" + string(c)), nil }

type twinE struct {
	A int `json:"a,omitempty"`
	B int `json:"-"`
}

type twinF struct {
	A int `json:"a"`
	B int `json:"-"`
}

type twinG struct {
	A *int
	B string `json:",string"`
}

func localTwins() []any {
	type twinA struct{ Y int }
	type twinB struct{ Y int }
	type twinC string
	type twinD string
	type twinE struct {
		A int `json:"x"`
		B int `json:",omitempty"`
	}
	type twinF struct {
		A int `json:",omitempty"`
		B int `json:"b"`
	}
	type twinG struct {
		B string
		A *int `json:",omitempty"`
	}
	return []any{twinA{1}, twinB{2}, twinC("k"), twinD("l"), twinE{0, 0}, twinF{0, 5}, twinG{"s", nil},
		map[twinC]int{"k": 1}, map[twinD]int{"k": 1}, []twinA{{1}}, []twinB{{2}}, struct{ F twinA }{twinA{1}}, struct{ F twinB }{twinB{1}}}
}

// twins gives the values in an order in which sometimes the one, sometimes the other twin
// comes first.
func twins() (res []any) {
	a := localTwins()
	b := []any{twinA{1}, twinB{2}, twinC("k"), twinD("l"), twinE{0, 3}, twinF{0, 5}, twinG{nil, "s"},
		map[twinC]int{"k": 1}, map[twinD]int{"k": 1}, []twinA{{1}}, []twinB{{2}}, struct{ F twinA }{twinA{1}}, struct{ F twinB }{twinB{1}}}
	for i := range a {
		x, y := a[i], b[i]
		if i%2 == 1 {
			x, y = y, x
		}
		res = append(res, x, y, x, x, y, y, x)
	}
	return
}

func checkTwins() error {
	for i, x := range twins() {
		want, err := json.Marshal(x)
		if err != nil {
			harnessBug("twin: %v", err)
		}
		j, err := ParseStrict(want)
		if err != nil {
			harnessBug("twin: %v", err)
		}
		v, err := jv.Import(x)
		if err != nil {
			return errf("Import of %T(%v), number %d: %v", x, x, i, err)
		}
		if err := expectV("Import of a type with a namesake", v, j, cmpOpt{order: true}); err != nil {
			return errf("%d, %T(%v), encoding/json: %s: %v", i, x, x, want, err)
		}
	}
	return nil
}
