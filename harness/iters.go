package harness

import (
	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
	"verif/harness/sym"
)

// cursor is an iterator of any kind together with what it has to produce.
type cursor struct {
	step func() ([]byte, int, bool)
	f    func(k []byte) bool
	desc bool
	arg  []byte
	got  []pair
	end  bool
}

// cursorKinds is the number of kinds of cursor.
const cursorKinds = 7

// cursorOf opens an iterator at a node: 0 forward, 1 forward by prefix, 2 lower
// bound, 3 reverse, 4 reverse by prefix, 5 reverse lower bound, 6 path. The
// iterator is handed a slice of its own, kept as arg.
func cursorOf(n adaptive.Node[int], kind int, q []byte) *cursor {
	c := &cursor{f: anyKey, arg: cp(q)}
	switch kind {
	case 0, 1:
		it := n.Iterator()
		c.step = it.Next
		if kind == 1 {
			it.SeekPrefix(c.arg)
			c.f = func(k []byte) bool { return sym.HasPrefix(k, q) }
		}
	case 2:
		it := n.LowerBoundIterator()
		it.SeekLowerBound(c.arg)
		c.step = it.Next
		c.f = func(k []byte) bool { return !sym.Less(k, q) }
	case 3, 4, 5:
		it := n.ReverseIterator()
		c.step, c.desc = it.Previous, true
		if kind == 4 {
			it.SeekPrefix(c.arg)
			c.f = func(k []byte) bool { return sym.HasPrefix(k, q) }
		}
		if kind == 5 {
			it.SeekReverseLowerBound(c.arg)
			c.f = func(k []byte) bool { return !sym.Less(q, k) }
		}
	case 6:
		it := n.PathIterator(c.arg)
		c.step = it.Next
		c.f = func(k []byte) bool { return sym.HasPrefix(q, k) }
	}
	return c
}

func (c *cursor) next() {
	if c.end {
		return
	}
	k, v, ok := c.step()
	if !ok {
		c.end = true
		return
	}
	c.got = append(c.got, pair{k, v})
}

func (c *cursor) drain(limit int) {
	for !c.end {
		c.next()
		if len(c.got) > limit {
			sym.Assert(false, "iteration does not end")
		}
	}
}

func pickCursor(name string) int {
	k := sym.Param(name, 9)
	if k < cursorKinds {
		return k
	}
	return sym.Choice(name, cursorKinds)
}

// C18 stops an iterator part of the way, lets something else happen, and goes
// on; it has to produce what it would have produced undisturbed.
//
// The iterator is positioned with a free key, or with qfix=1 with one of three
// keys of the template.
//
//	mid 0 free updates of the tree, one tree from the other
//	    1 free updates in a tracked transaction, committed
//	    2 a second iterator of the same tree, used in alternation
//	    3 the caller changes the slice the iterator was given
//	    4 lookups, watches and a second iterator used up
func C18() {
	e := build()
	e.before()
	q := e.reader()
	it := cursorOf(e.t.Root(), pickCursor("it"), q)
	for i := sym.Choice("steps", sym.Param("steps", 3)); i > 0; i-- {
		it.next()
	}
	lim := e.limit()
	switch sym.Param("mid", 0) {
	case 0:
		t := e.t
		for i := 0; i < sym.Param("ops", 1); i++ {
			t, _ = onTree(t, e.pickN("op", i))
		}
	case 1:
		x := e.t.Txn()
		x.TrackMutate(true)
		for i := 0; i < sym.Param("ops", 1); i++ {
			onTxn(x, e.pickN("op", i))
		}
		x.Commit()
	case 2:
		o := cursorOf(e.t.Root(), pickCursor("other"), q)
		for !it.end || !o.end {
			it.next()
			o.next()
			if len(it.got) > lim || len(o.got) > lim {
				sym.Assert(false, "iteration does not end")
			}
		}
		e.exact(o.got, o.f, o.desc, "second iterator")
	case 3:
		for i := range it.arg {
			it.arg[i] ^= 0x55
		}
	case 4:
		e.t.Get(cp(q))
		e.t.GetWatch(cp(q))
		e.t.LongestPrefix(cp(q))
		e.t.Walk(func([]byte, int) bool { return false })
		o := cursorOf(e.t.Root(), pickCursor("other"), q)
		o.drain(lim)
		e.exact(o.got, o.f, o.desc, "second iterator")
	}
	it.drain(lim)
	e.exact(it.got, it.f, it.desc, "interrupted iteration")
	k, v, ok := it.step()
	sym.Assert(!ok && v == 0 && len(k) == 0, "a used up iterator stays so")
	observe(it.got)
	sym.Reach("end")
}

// C19 visits all nodes and iterates from each of them.
func C19() {
	e := build()
	e.history()
	lim := e.limit()
	whole := forward(e.t, lim)
	e.exact(whole, anyKey, false, "iteration from the root")
	var nodes []adaptive.Node[int]
	e.t.DFS(func(n adaptive.Node[int]) { nodes = append(nodes, n) })
	sym.Assert(len(nodes) > 0 && nodes[0] == e.t.Root(), "DFS starts at the root")
	for i := range nodes {
		for j := 0; j < i; j++ {
			sym.Assert(nodes[i] != nodes[j], "DFS visits a node once")
		}
	}
	first := make([]bool, len(whole))
	lo, hi := make([]int, len(nodes)), make([]int, len(nodes))
	for i, n := range nodes {
		got := drainIter(n.Iterator(), lim)
		c := conj()
		c.add(len(got) > 0 || i == 0)
		samePairs(c, drainLower(n.LowerBoundIterator(), lim), got)
		rev := drainReverse(n.ReverseIterator(), lim)
		for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
			rev[a], rev[b] = rev[b], rev[a]
		}
		samePairs(c, rev, got)
		// values are unique, so they tell where the run starts
		s := 0
		for len(got) > 0 && s < len(whole) && whole[s].v != got[0].v {
			s++
		}
		lo[i], hi[i] = s, s+len(got)
		c.add(hi[i] <= len(whole))
		if hi[i] <= len(whole) {
			samePairs(c, whole[s:hi[i]], got)
		}
		c.must("iterators from a node yield one run of keys")
		if len(got) > 0 {
			first[s] = true
		}
		// nodes come before what is below them and after what is left of them
		for j := 0; j < i; j++ {
			sym.Assert(lo[i] >= hi[j] || lo[i] >= lo[j] && hi[i] <= hi[j], "DFS order")
		}
		sub := 0
		e.t.DFSNode(n, func(m adaptive.Node[int]) {
			if i+sub < len(nodes) && nodes[i+sub] == m {
				sub++
			} else {
				sub = -len(nodes)
			}
		})
		sym.Assert(sub > 0, "DFSNode visits what DFS visits from there")
	}
	sym.Assert(lo[0] == 0 && hi[0] == len(whole), "everything is below the root")
	for _, f := range first {
		sym.Assert(f, "every key is the first one below some node")
	}
	observe(whole)
	sym.Observe("nodes", len(nodes))
	sym.Reach("end")
}
