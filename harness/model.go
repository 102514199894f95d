package harness

import (
	"verif/harness/sym"
)

// entry is one write recorded by the oracle; alive may be symbolic.
type entry struct {
	k     []byte
	v     int
	alive bool
}

// model is the reference map: an association list in operation order with at
// most one live entry per key. Nothing in it branches on symbolic data.
type model struct {
	e []entry
	// values are not in ascending order, so holds cannot search by value
	mixed bool
}

func (m *model) clone() *model {
	return &model{append([]entry(nil), m.e...), m.mixed}
}

func (m *model) get(k []byte) (int, bool) {
	v, ok := 0, false
	for _, e := range m.e {
		hit := sym.And(e.alive, sym.Eq(e.k, k))
		v = sym.Ite(hit, e.v, v)
		ok = sym.Or(ok, hit)
	}
	return v, ok
}

// holds reports whether k is stored with value v. Values are unique, so the
// entry to compare with is known.
func (m *model) holds(k []byte, v int) bool {
	if m.mixed {
		w, ok := m.get(k)
		return sym.And(ok, v == w)
	}
	lo, hi := 0, len(m.e)
	for lo < hi {
		mid := (lo + hi) / 2
		if m.e[mid].v < v {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	if lo == len(m.e) || m.e[lo].v != v {
		return false
	}
	return sym.And(m.e[lo].alive, sym.Eq(m.e[lo].k, k))
}

func (m *model) has(k []byte) bool {
	_, ok := m.get(k)
	return ok
}

func (m *model) drop(k []byte) {
	for i := range m.e {
		m.e[i].alive = sym.And(m.e[i].alive, !sym.Eq(m.e[i].k, k))
	}
}

// add records a key known not to be present.
func (m *model) add(k []byte, v int) {
	if n := len(m.e); n > 0 && m.e[n-1].v >= v {
		m.mixed = true
	}
	m.e = append(m.e, entry{cp(k), v, true})
}

func (m *model) insert(k []byte, v int) (int, bool) {
	old, ok := m.get(k)
	m.drop(k)
	m.add(k, v)
	return old, ok
}

func (m *model) delete(k []byte) (int, bool) {
	old, ok := m.get(k)
	m.drop(k)
	return old, ok
}

func (m *model) deletePrefix(p []byte) int {
	n := 0
	for i := range m.e {
		hit := sym.And(m.e[i].alive, sym.HasPrefix(m.e[i].k, p))
		n += sym.Ite(hit, 1, 0)
		m.e[i].alive = sym.And(m.e[i].alive, !hit)
	}
	return n
}

// anyUnder reports whether a live key starts with p.
func (m *model) anyUnder(p []byte) bool {
	r := false
	for _, e := range m.e {
		r = sym.Or(r, sym.And(e.alive, sym.HasPrefix(e.k, p)))
	}
	return r
}

// count returns the number of live keys for which f holds.
func (m *model) count(f func(k []byte) bool) int {
	n := 0
	for _, e := range m.e {
		n += sym.Ite(sym.And(e.alive, f(e.k)), 1, 0)
	}
	return n
}

func (m *model) len() int {
	return m.count(func([]byte) bool { return true })
}

func cp(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func cat(a []byte, b ...byte) []byte {
	r := make([]byte, len(a)+len(b))
	copy(r, a)
	copy(r[len(a):], b)
	return r
}

// key returns a key of any length up to n with unconstrained bytes.
func key(name string, n int) []byte {
	l := 0
	if n > 0 {
		l = sym.Choice(name+".len", n+1)
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = sym.Byte(name)
	}
	return b
}

// all accumulates conditions so that one query decides them together.
type all struct{ ok bool }

func (a *all) add(c bool) { a.ok = sym.And(a.ok, c) }
func (a *all) must(msg string) {
	sym.Assert(a.ok, msg)
}
func conj() *all { return &all{true} }
