package harness

import (
	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
	"verif/harness/sym"
)

type pt struct {
	a int
	b string
}

// C20 stores values of several types, zero values included.
//
//	type 0 int, 1 string, 2 pointer, 3 struct, 4 interface, 5 array,
//	     6 bool, 7 error
//	fan  updates happen below a node with that many children, and their key is read
func C20() {
	switch sym.Param("type", 0) {
	case 0:
		values([]int{0, -1, 1 << 40, 7})
	case 1:
		values([]string{"", "a", "\x00", "a"})
	case 2:
		a, b := 1, 1
		values([]*int{nil, &a, &b, &a})
	case 3:
		values([]pt{{}, {1, ""}, {0, "x"}, {1, "x"}})
	case 4:
		values([]interface{}{nil, 0, "", pt{1, "y"}})
	case 5:
		values([][2]byte{{}, {0, 1}, {1, 0}, {255, 255}})
	case 6:
		values([]bool{false, true, false, true})
	case 7:
		values([]error{nil, errA, errB, nil})
	}
}

type myErr struct{ s string }

func (m *myErr) Error() string { return m.s }

var errA, errB error = &myErr{"a"}, &myErr{"a"}

func values[T comparable](vals []T) {
	var zero T
	t := adaptive.NewRadixTree[T]()
	m := &model{}
	x := t.Txn()
	c := conj()
	// is says that v is the value with index i if ok, else the zero value
	is := func(v T, ok bool, i int, wok bool) {
		c.add(sym.Iff(ok, wok))
		c.add(sym.Implies(!wok, v == zero))
		for j := range vals {
			c.add(sym.Implies(sym.And(wok, i == j), v == vals[j]))
		}
	}
	n := sym.Param("len", 2)
	var pre, last []byte
	if f := sym.Param("fan", 0); f > 0 {
		// below a node with that many children
		pre = []byte{'a'}
		for i := 0; i < f; i++ {
			k := cat(pre, branch(i))
			x.Insert(cp(k), vals[i%len(vals)])
			m.add(k, i%len(vals))
		}
		t = x.Commit()
		x = t.Txn()
	}
	for i := 0; i < sym.Param("ops", 3); i++ {
		k := cat(pre, key("op", n)...)
		last = k
		switch sym.Choice("op.kind", 3) {
		case 0:
			j := sym.Choice("val", len(vals))
			var v T
			var ok bool
			if sym.Param("via", 0) == 0 {
				t, v, ok = t.Insert(cp(k), vals[j])
			} else {
				v, ok = x.Insert(cp(k), vals[j])
			}
			w, wok := m.insert(k, j)
			is(v, ok, w, wok)
		case 1:
			var v T
			var ok bool
			if sym.Param("via", 0) == 0 {
				t, v, ok = t.Delete(cp(k))
			} else {
				v, ok = x.Delete(cp(k))
			}
			w, wok := m.delete(k)
			is(v, ok, w, wok)
		case 2:
			if sym.Param("via", 0) == 0 {
				t, _ = t.DeletePrefix(cp(k))
			} else {
				x.DeletePrefix(cp(k))
			}
			m.deletePrefix(k)
		}
	}
	c.must("previous and removed values")
	m.mixed = true
	c = conj()
	var q []byte
	if len(pre) == 0 {
		q = key("q", n)
	} else {
		q = last
	}
	w, wok := m.get(q)
	if sym.Param("via", 0) == 1 {
		v, ok := x.Get(cp(q))
		is(v, ok, w, wok)
		_, v, ok = x.GetWatch(cp(q))
		is(v, ok, w, wok)
		t = x.Commit()
	}
	v, ok := t.Get(cp(q))
	is(v, ok, w, wok)
	_, v, ok = t.GetWatch(cp(q))
	is(v, ok, w, wok)
	k, v, ok := t.LongestPrefix(cp(q))
	c.add(sym.Implies(!ok, v == zero))
	if ok {
		w, wok = m.get(k)
		is(v, ok, w, wok)
	}
	c.must("looked up values")
	c = conj()
	pair := func(k []byte, v T) {
		w, wok := m.get(k)
		is(v, true, w, wok)
	}
	t.Walk(func(k []byte, v T) bool {
		pair(k, v)
		return false
	})
	it := t.Root().Iterator()
	for {
		k, v, ok := it.Next()
		if !ok {
			c.add(v == zero)
			break
		}
		pair(k, v)
	}
	lb := t.Root().LowerBoundIterator()
	lb.SeekLowerBound(cp(q))
	for {
		k, v, ok := lb.Next()
		if !ok {
			c.add(v == zero)
			break
		}
		pair(k, v)
	}
	ri := t.Root().ReverseIterator()
	for {
		k, v, ok := ri.Previous()
		if !ok {
			c.add(v == zero)
			break
		}
		pair(k, v)
	}
	pi := t.GetPathIterator(cp(q))
	for {
		k, v, ok := pi.Next()
		if !ok {
			c.add(v == zero)
			break
		}
		pair(k, v)
	}
	c.must("iterated values")
	sym.Observe("n", t.Len())
	sym.Reach("end")
}
