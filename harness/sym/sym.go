// Package sym is the vocabulary harnesses are written in. The symbolic engine
// intercepts every exported function; the bodies below give the same functions
// a concrete meaning for native replay of one recorded path.
package sym

import (
	"bytes"
	"fmt"
	"sync/atomic"
)

// Input is one recorded nondeterministic value.
type Input struct {
	Name string `json:"n"`
	Val  int    `json:"v"`
}

// Obs is one recorded observation.
type Obs struct {
	Name string   `json:"n"`
	V    []uint64 `json:"v"`
}

// Run holds the state of a native replay.
type Run struct {
	Inputs []Input
	Params map[string]int
	pos    int
	Obs    []Obs
	gate   atomic.Int32
}

// Stop ends a native run (failed assertion or assumption, or bad input list).
type Stop struct {
	Kind string
	Msg  string
}

// Cur is the native run in progress.
var Cur *Run

func (r *Run) next(name string) int {
	if r.pos >= len(r.Inputs) {
		panic(Stop{"mismatch", "inputs exhausted at " + name})
	}
	in := r.Inputs[r.pos]
	if in.Name != name {
		panic(Stop{"mismatch", fmt.Sprintf("input %d is %q, harness asked for %q", r.pos, in.Name, name)})
	}
	r.pos++
	return in.Val
}

// Byte returns an unconstrained symbolic byte.
func Byte(name string) byte { return byte(Cur.next(name)) }

// Choice returns every value in [0,n) in turn.
func Choice(name string, n int) int {
	if n <= 0 {
		panic(Stop{"mismatch", "choice of nothing"})
	}
	return Cur.next(name)
}

// Param returns a concrete bound set by the check.
func Param(name string, def int) int {
	if v, ok := Cur.Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states a property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"assert", msg})
	}
}

// Reach marks a program point as reached (vacuity guard).
func Reach(name string) {}

// Gate lets n goroutines start together in a native run, to make collisions
// likely; the engine explores all schedules and ignores it.
func Gate(n int) {
	Cur.gate.Add(1)
	for i := 0; int(Cur.gate.Load()) < n && i < 1000000; i++ {
	}
}

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// Observe records a value for comparison between engine and native run.
func Observe(name string, v int) { Cur.Obs = append(Cur.Obs, Obs{name, []uint64{uint64(v)}}) }

// ObserveBytes records a byte string.
func ObserveBytes(name string, b []byte) {
	o := Obs{Name: name, V: []uint64{}}
	for _, c := range b {
		o.V = append(o.V, uint64(c))
	}
	Cur.Obs = append(Cur.Obs, o)
}

// And, Or, Implies, Iff and Ite do not fork.
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Known reports whether c is true whatever the inputs are. It may be used to
// pick a cheaper way to compute the same thing, never to change the outcome.
func Known(c bool) bool { return c }

// Eq, Less and HasPrefix compare byte strings without forking.
func Eq(a, b []byte) bool        { return bytes.Equal(a, b) }
func Less(a, b []byte) bool      { return bytes.Compare(a, b) < 0 }
func HasPrefix(a, p []byte) bool { return bytes.HasPrefix(a, p) }
