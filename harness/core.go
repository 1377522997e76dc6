package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"

	"pgregory.net/rapid"
)

// Stat accumulates what one worker did.
type Stat struct {
	Evals   int
	Hashes  map[uint64]struct{}
	Labels  map[string]int
	Samples []json.RawMessage

	nontrivial bool
	nextSample int
	ntCount    int
}

func newStat() *Stat {
	return &Stat{Hashes: map[uint64]struct{}{}, Labels: map[string]int{}, nextSample: 3}
}

// NT marks the current case as non-trivial by the property's rule.
func (s *Stat) NT() { s.nontrivial = true }

// Label counts a class of cases.
func (s *Stat) Label(l string) { s.Labels[l]++ }

// Prop is a property: a generator of cases and an oracle over one case.
type Prop struct {
	ID     string
	Rule   string // how cases are made and what makes one non-trivial
	Assume []string
	Race   bool
	Quick  int // cases per worker
	// Gen draws a case; Check decides it.
	gen    func(t *rapid.T) any
	check  func(c any, st *Stat) error
	decode func(b []byte) (any, error)
}

var props = map[string]*Prop{}

type spec[C any] struct {
	ID, Rule string
	Assume   []string
	Race     bool
	Quick    int
	Gen      func(t *rapid.T) C
	Check    func(c C, st *Stat) error
}

func register[C any](s spec[C]) {
	p := &Prop{
		ID: s.ID, Rule: s.Rule, Assume: s.Assume, Race: s.Race,
		Quick: s.Quick,
		gen:   func(t *rapid.T) any { return s.Gen(t) },
		check: func(c any, st *Stat) error {
			return s.Check(c.(C), st)
		},
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
	}
	if _, dup := props[s.ID]; dup {
		panic("duplicate property " + s.ID)
	}
	props[s.ID] = p
}

// harnessError marks a failure of the harness itself (never a violation).
type harnessError struct{ msg string }

func (e harnessError) Error() string { return "harness error: " + e.msg }

func harnessBug(format string, a ...any) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

// runCase runs the oracle on one case; a panic of the code under test is a failure.
func (p *Prop) runCase(c any, st *Stat) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return p.check(c, st)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		harnessBug("encode case: %v", err)
	}
	return b
}

func (s *Stat) record(c any) {
	s.Evals++
	if !s.nontrivial {
		return
	}
	b := mustJSON(c)
	h := fnv.New64a()
	h.Write(b)
	if len(s.Hashes) < 3000000 {
		s.Hashes[h.Sum64()] = struct{}{}
	}
	s.ntCount++
	if s.ntCount >= s.nextSample && len(s.Samples) < 4 && len(b) < 1500 {
		s.Samples = append(s.Samples, b)
		s.nextSample = s.ntCount * 7
	}
}

func errf(format string, a ...any) error { return fmt.Errorf(format, a...) }
