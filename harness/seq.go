package harness

import (
	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
	"verif/harness/sym"
)

// same asserts that a lookup result agrees with the oracle.
func same(v int, ok bool, wv int, wok bool, what string) {
	c := conj()
	c.add(sym.Iff(ok, wok))
	c.add(sym.Implies(wok, v == wv))
	c.must(what)
}

// C01 compares every kind of lookup of a free key with the oracle.
func C01() {
	e := build()
	if sym.Param("via", 0) == 2 {
		// lookups inside the open transaction
		x := e.t.Txn()
		for i := 0; i < sym.Param("ops", 2); i++ {
			o := e.pick("op")
			onTxn(x, o)
			e.onModel(o)
		}
		q := e.gen("q")
		wv, wok := e.m.get(q)
		v, ok := x.Get(cp(q))
		same(v, ok, wv, wok, "Txn.Get")
		_, v, ok = x.GetWatch(cp(q))
		same(v, ok, wv, wok, "Txn.GetWatch")
		e.t = x.Commit()
		v, ok = e.t.Get(cp(q))
		same(v, ok, wv, wok, "Get after Commit")
		sym.Observe("v", v)
		sym.Reach("end")
		return
	}
	e.history()
	if sym.Param("q", 1) == 0 {
		// every key ever used instead of a free one
		e.lookups(e.t, "Get of recorded keys")
		sym.Reach("end")
		return
	}
	q := e.gen("q")
	wv, wok := e.m.get(q)
	v, ok := e.t.Get(cp(q))
	same(v, ok, wv, wok, "Get")
	sym.Observe("v", v)
	_, v, ok = e.t.GetWatch(cp(q))
	same(v, ok, wv, wok, "GetWatch")
	sym.Reach("end")
}

// C02 compares the reported effect of every update and the length.
func C02() {
	e := build()
	n := sym.Param("ops", 2)
	c := conj()
	check := func(got, want result) {
		c.add(sym.Iff(got.ok, want.ok))
		c.add(sym.Implies(want.ok, got.v == want.v))
	}
	if sym.Param("via", 0) == 0 {
		for i := 0; i < n; i++ {
			o := e.pick("op")
			t, r := onTree(e.t, o)
			e.t = t
			check(r, e.onModel(o))
			c.add(e.t.Len() == e.m.len())
			sym.Observe("r", r.v)
		}
	} else {
		x := e.t.Txn()
		for i := 0; i < n; i++ {
			o := e.pick("op")
			check(onTxn(x, o), e.onModel(o))
			if sym.Param("mid", 0) == 1 {
				c.add(x.CommitOnly().Len() == e.m.len())
			}
		}
		e.t = x.Commit()
		c.add(e.t.Len() == e.m.len())
	}
	c.must("update result and length")
	sym.Observe("len", e.t.Len())
	sym.Reach("end")
}

// C03 deletes a free prefix and then looks at everything that is left.
func C03() {
	e := build()
	e.history()
	p := e.gen("p")
	n := e.m.deletePrefix(p)
	var ok bool
	if sym.Param("via", 0) == 0 {
		e.t, ok = e.t.DeletePrefix(cp(p))
	} else {
		x := e.t.Txn()
		ok = x.DeletePrefix(cp(p))
		e.t = x.Commit()
	}
	sym.Assert(sym.Iff(ok, n > 0), "DeletePrefix result")
	e.content(e.t, "after DeletePrefix")
	for i := 0; i < sym.Param("after", 0); i++ {
		o := e.pick("after")
		e.t, _ = onTree(e.t, o)
		e.onModel(o)
	}
	if sym.Param("after", 0) > 0 {
		e.content(e.t, "later updates")
	}
	observe(forward(e.t, e.limit()))
	sym.Reach("end")
}

// C04 checks plain iteration, prefix iteration and walking. With again=1 the
// iterator is seeked and used before; so for C05 and C06.
func C04() {
	e := build()
	e.history()
	lim := e.limit()
	what := sym.Param("what", 7)
	if what&1 != 0 {
		got := forward(e.t, lim)
		e.exact(got, anyKey, false, "unseeked iteration")
		observe(got)
	}
	if what&2 != 0 {
		p := e.gen("p")
		it := e.t.Root().Iterator()
		if sym.Param("again", 0) == 1 {
			if sym.Choice("seek", 2) == 1 {
				it.SeekPrefix(e.gen("p0"))
			}
			it.Next()
		}
		it.SeekPrefix(cp(p))
		got := drainIter(it, lim)
		e.exact(got, func(k []byte) bool { return sym.HasPrefix(k, p) }, false, "prefix iteration")
		observe(got)
	}
	if what&4 != 0 {
		var got []pair
		e.t.Walk(func(k []byte, v int) bool {
			got = append(got, pair{k, v})
			return len(got) > lim
		})
		e.exact(got, anyKey, false, "walk")
		if len(got) > 0 {
			stop := sym.Choice("stop", min3(len(got), 3, 3)) + 1
			n := 0
			e.t.Walk(func(k []byte, v int) bool {
				n++
				return n == stop
			})
			sym.Assert(n == stop, "walk stops when asked to")
		}
	}
	sym.Reach("end")
}

func min3(a, b, c int) int {
	if b < a {
		a = b
	}
	if c < a {
		a = c
	}
	return a
}

// C05 checks lower-bound iteration.
func C05() {
	e := build()
	e.history()
	b := e.gen("b")
	it := e.t.Root().LowerBoundIterator()
	if sym.Param("again", 0) == 1 {
		if sym.Choice("seek", 2) == 1 {
			it.SeekLowerBound(e.gen("b0"))
		}
		it.Next()
	}
	it.SeekLowerBound(cp(b))
	got := drainLower(it, e.limit())
	e.exact(got, func(k []byte) bool { return !sym.Less(k, b) }, false, "lower bound iteration")
	observe(got)
	sym.Reach("end")
}

// C06 checks reverse iteration: unseeked, by prefix and by upper bound.
func C06() {
	e := build()
	e.history()
	lim := e.limit()
	what := sym.Param("what", 7)
	if what&1 != 0 {
		got := drainReverse(e.t.Root().ReverseIterator(), lim)
		e.exact(got, anyKey, true, "unseeked reverse iteration")
		observe(got)
	}
	if what&6 != 0 {
		p := e.gen("p")
		used := func(it *adaptive.ReverseIterator[int]) {
			if sym.Param("again", 0) == 0 {
				return
			}
			switch sym.Choice("seek", 3) {
			case 1:
				it.SeekPrefix(e.gen("p0"))
			case 2:
				it.SeekReverseLowerBound(e.gen("p0"))
			}
			it.Previous()
		}
		if what&2 != 0 {
			it := e.t.Root().ReverseIterator()
			used(it)
			it.SeekPrefix(cp(p))
			got := drainReverse(it, lim)
			e.exact(got, func(k []byte) bool { return sym.HasPrefix(k, p) }, true, "reverse prefix iteration")
			observe(got)
		}
		if what&4 != 0 {
			it := e.t.Root().ReverseIterator()
			used(it)
			it.SeekReverseLowerBound(cp(p))
			got := drainReverse(it, lim)
			e.exact(got, func(k []byte) bool { return !sym.Less(p, k) }, true, "reverse lower bound iteration")
			observe(got)
		}
	}
	sym.Reach("end")
}

// leafPair reads the entry behind a leaf handed out by Minimum or Maximum.
func leafPair(l *adaptive.NodeLeaf[int]) (pair, bool) {
	if l == nil {
		return pair{}, false
	}
	it := l.Iterator()
	it.SeekPrefix(nil)
	k, v, ok := it.Next()
	return pair{k, v}, ok
}

// C07 checks Minimum, Maximum and LongestPrefix.
func C07() {
	e := build()
	e.history()
	what := sym.Param("what", 3)
	if what&1 != 0 {
		c := conj()
		lo, ok := leafPair(e.t.Minimum())
		c.add(sym.Iff(ok, e.m.len() > 0))
		hi, ok2 := leafPair(e.t.Maximum())
		c.add(sym.Iff(ok2, e.m.len() > 0))
		if ok && ok2 {
			c.add(e.m.holds(lo.k, lo.v))
			c.add(e.m.holds(hi.k, hi.v))
			for _, en := range e.m.e {
				c.add(sym.Implies(en.alive, !sym.Less(en.k, lo.k)))
				c.add(sym.Implies(en.alive, !sym.Less(hi.k, en.k)))
			}
			sym.ObserveBytes("lo", lo.k)
			sym.ObserveBytes("hi", hi.k)
		}
		c.must("minimum and maximum")
	}
	if what&2 != 0 {
		q := e.gen("q")
		k, v, ok := e.t.LongestPrefix(cp(q))
		e.longest(q, k, v, ok, "LongestPrefix")
		if sym.Param("via", 0) == 1 {
			k, v, ok = e.t.Txn().LongestPrefix(cp(q))
			e.longest(q, k, v, ok, "Txn.LongestPrefix")
		}
		sym.ObserveBytes("lp", k)
	}
	sym.Reach("end")
}

func (e *env) longest(q, k []byte, v int, ok bool, what string) {
	c := conj()
	n := e.m.count(func(x []byte) bool { return sym.HasPrefix(q, x) })
	c.add(sym.Iff(ok, n > 0))
	if ok {
		c.add(e.m.holds(k, v))
		c.add(sym.HasPrefix(q, k))
		for _, en := range e.m.e {
			if len(en.k) > len(k) {
				c.add(!sym.And(en.alive, sym.HasPrefix(q, en.k)))
			}
		}
	}
	c.must(what)
}

// C08 checks path iteration.
func C08() {
	e := build()
	e.history()
	q := e.gen("path")
	got := drainPath(e.t.GetPathIterator(cp(q)), e.limit())
	e.exact(got, func(k []byte) bool { return sym.HasPrefix(q, k) }, false, "path iteration")
	observe(got)
	sym.Reach("end")
}

// spare returns k in a slice with spare capacity holding marker bytes.
func spare(k []byte, n int) []byte {
	b := make([]byte, len(k)+n)
	copy(b, k)
	for i := len(k); i < len(b); i++ {
		b[i] = 0xA5
	}
	return b[:len(k)]
}

// C13 checks that caller-owned and handed-out slices are isolated.
func C13() {
	e := build()
	e.history()
	cap := sym.Choice("cap", 3)
	q := e.gen("q")
	s := spare(q, cap)
	untouched := func(what string) {
		c := conj()
		c.add(sym.Eq(s, q))
		full := s[:len(s)+cap]
		for i := len(s); i < len(full); i++ {
			c.add(full[i] == 0xA5)
		}
		c.must(what)
	}
	lim := e.limit()
	var keys [][]byte
	grab := func(ps []pair) {
		for _, p := range ps {
			keys = append(keys, p.k)
		}
	}
	before := e.t
	what := sym.Choice("call", 12)
	switch what {
	case 0:
		e.next++
		e.t, _, _ = e.t.Insert(s, e.next)
		e.m.insert(q, e.next)
	case 1:
		e.t, _, _ = e.t.Delete(s)
		e.m.delete(q)
	case 2:
		e.t, _ = e.t.DeletePrefix(s)
		e.m.deletePrefix(q)
	case 3:
		e.t.Get(s)
		e.t.GetWatch(s)
	case 4:
		k, _, ok := e.t.LongestPrefix(s)
		if ok {
			keys = append(keys, k)
		}
	case 5:
		grab(drainPath(e.t.GetPathIterator(s), lim))
	case 6:
		it := e.t.Root().Iterator()
		it.SeekPrefixWatch(s)
		grab(drainIter(it, lim))
	case 7:
		it := e.t.Root().LowerBoundIterator()
		it.SeekLowerBound(s)
		grab(drainLower(it, lim))
	case 8:
		it := e.t.Root().ReverseIterator()
		it.SeekReverseLowerBound(s)
		grab(drainReverse(it, lim))
	case 9:
		it := e.t.Root().ReverseIterator()
		it.SeekPrefix(s)
		grab(drainReverse(it, lim))
	case 10:
		e.t.Walk(func(k []byte, v int) bool {
			keys = append(keys, k)
			return false
		})
	case 11:
		// several keys through one transaction from one buffer
		x := e.t.Txn()
		e.next++
		x.Insert(s, e.next)
		e.m.insert(q, e.next)
		untouched("transactional insert leaves the key slice alone")
		if len(s) > 0 {
			q = cp(q)
			q[0] ^= 0x55
			s[0] ^= 0x55
			e.next++
			x.Insert(s, e.next)
			e.m.insert(q, e.next)
		}
		e.t = x.Commit()
	}
	untouched("call leaves the key slice alone")
	// the caller goes on using its memory
	full := s[:len(s)+cap]
	for i := range full {
		full[i] ^= 0xFF
	}
	for _, k := range keys {
		k = append(k, '!', '!')
		_ = k
	}
	e.content(e.t, "tree after the caller reused its slices")
	if what > 2 && what != 11 {
		sym.Assert(before == e.t, "lookup returns the same tree")
	}
	sym.Reach("end")
}

// C14 calls everything with free arguments; the engine reports any panic.
func C14() {
	e := build()
	e.history()
	lim := e.limit() + 2
	q := e.gen("q")
	if sym.Param("nil", 0) == 1 {
		q = nil
	}
	t := e.t
	var leaves []*adaptive.NodeLeaf[int]
	switch sym.Param("call", 0) {
	case 0: // the tree and transactions
		t.Get(q)
		t.GetWatch(q)
		t.LongestPrefix(q)
		t.Minimum()
		t.Maximum()
		t.Len()
		t.Walk(func([]byte, int) bool { return false })
		t.Walk(func([]byte, int) bool { return true })
		t.DFS(func(adaptive.Node[int]) {})
		t.Clone().Get(q)
		drainPath(t.GetPathIterator(q), lim)
		x := t.Txn()
		x.TrackMutate(true)
		x.Delete(q)
		x.Get(q)
		x.GetWatch(q)
		x.Insert(q, 1)
		x.LongestPrefix(q)
		y := x.Clone()
		y.DeletePrefix(q)
		y.GetTree().Len()
		y.Insert(q, 2)
		x.Root().Iterator().Next()
		x.CommitOnly()
		x.Notify()
		x.Notify()
		x.DeletePrefix(q)
		x.Commit()
		x.Commit()
		y.Commit()
		y.Commit()
		t.Insert(q, 3)
		t.Delete(q)
		t.DeletePrefix(q)
	case 1: // iterators from the root, exhausted and seeked again
		it := t.Root().Iterator()
		it.Next()
		it.Front()
		it.Path()
		it.SeekPrefix(q)
		drainIter(it, lim)
		it.Next()
		it.SeekPrefixWatch(q)
		it.Next()
		it.SeekPrefix(nil)
		drainIter(it, lim)
		lb := t.Root().LowerBoundIterator()
		lb.SeekLowerBound(q)
		drainLower(lb, lim)
		lb.Next()
		lb.SeekLowerBound(q)
		lb.Next()
		lb.SeekLowerBound(nil)
		drainLower(lb, lim)
		lb.Front()
		lb.Path()
		ri := t.Root().ReverseIterator()
		ri.SeekReverseLowerBound(q)
		drainReverse(ri, lim)
		ri.Previous()
		ri.SeekReverseLowerBound(q)
		ri.Previous()
		ri.SeekPrefixWatch(q)
		drainReverse(ri, lim)
		ri.SeekPrefix(nil)
		drainReverse(ri, lim)
		ri.SeekReverseLowerBound(nil)
		drainReverse(ri, lim)
		pi := t.GetPathIterator(q)
		drainPath(pi, lim)
		pi.Next()
	case 2: // iterators from every reachable node
		leaves = append(leaves, t.Minimum(), t.Maximum())
		var nodes []adaptive.Node[int]
		t.DFS(func(n adaptive.Node[int]) { nodes = append(nodes, n) })
		for _, l := range leaves {
			if l != nil {
				nodes = append(nodes, l)
			}
		}
		nodes = append(nodes, t.Root().Iterator().SeekPrefix(q))
		n := nodes[sym.Choice("node", len(nodes))]
		drainIter(n.Iterator(), lim)
		it := n.Iterator()
		it.SeekPrefix(q)
		drainIter(it, lim)
		it = n.Iterator()
		it.SeekPrefixWatch(q)
		it.SeekPrefix(q)
		drainIter(it, lim)
		lb := n.LowerBoundIterator()
		lb.SeekLowerBound(q)
		drainLower(lb, lim)
		drainLower(n.LowerBoundIterator(), lim)
		ri := n.ReverseIterator()
		ri.SeekReverseLowerBound(q)
		drainReverse(ri, lim)
		ri.SeekPrefix(q)
		drainReverse(ri, lim)
		drainReverse(n.ReverseIterator(), lim)
		drainPath(n.PathIterator(q), lim)
		t.DFSNode(n, func(adaptive.Node[int]) {})
	}
	sym.Reach("end")
}

// queries runs every kind of read with one free argument and compares it with
// the oracle.
func (e *env) queries(t *tree, q []byte) {
	lim := e.limit()
	wv, wok := e.m.get(q)
	v, ok := t.Get(cp(q))
	same(v, ok, wv, wok, "Get")
	it := t.Root().Iterator()
	it.SeekPrefix(cp(q))
	e.exact(drainIter(it, lim), func(k []byte) bool { return sym.HasPrefix(k, q) }, false, "prefix iteration")
	lb := t.Root().LowerBoundIterator()
	lb.SeekLowerBound(cp(q))
	got := drainLower(lb, lim)
	e.exact(got, func(k []byte) bool { return !sym.Less(k, q) }, false, "lower bound iteration")
	observe(got)
	ri := t.Root().ReverseIterator()
	ri.SeekReverseLowerBound(cp(q))
	got = drainReverse(ri, lim)
	e.exact(got, func(k []byte) bool { return !sym.Less(q, k) }, true, "reverse lower bound iteration")
	observe(got)
	k, v, ok := t.LongestPrefix(cp(q))
	e.longest(q, k, v, ok, "LongestPrefix")
}

// whole compares content, both full iterations and the extremes.
func (e *env) whole(t *tree, what string) {
	e.content(t, what)
	got := drainReverse(t.Root().ReverseIterator(), e.limit())
	e.exact(got, anyKey, true, what+": reverse iteration")
	lo, ok := leafPair(t.Minimum())
	hi, ok2 := leafPair(t.Maximum())
	c := conj()
	c.add(ok == (len(got) > 0))
	c.add(ok2 == (len(got) > 0))
	if ok && ok2 && len(got) > 0 {
		c.add(sym.Eq(hi.k, got[0].k))
		c.add(sym.Eq(lo.k, got[len(got)-1].k))
	}
	c.must(what + ": extremes")
}

// C16 is the wide template with updates at a chosen fan-out, everything read
// back, and a free read.
func C16() {
	e := build()
	c := conj()
	n := sym.Param("ops", 1)
	for i := 0; i < n; i++ {
		o := e.pick("op")
		t, r := onTree(e.t, o)
		e.t = t
		w := e.onModel(o)
		c.add(sym.Iff(r.ok, w.ok))
	}
	c.must("update result")
	if sym.Param("q", 0) == 0 {
		e.whole(e.t, "fan-out")
	} else {
		e.queries(e.t, e.gen("q"))
	}
	sym.Reach("end")
}

// C16G grows a node one branch at a time up to all 256 and shrinks it again,
// reading everything back at each fan-out in [from,to], then does one free
// update.
func C16G() {
	e := &env{t: adaptive.NewRadixTree[int](), m: &model{}, next: 1000, tmpl: 1}
	e.pre = shared(sym.Param("plen", 1))
	from, to := sym.Param("from", 1), sym.Param("to", 256)
	if sym.Param("leaf", 0) == 1 {
		e.put(e.pre)
	}
	label := func(i int) byte {
		switch sym.Param("order", 0) {
		case 0:
			return byte(i)
		case 1:
			return byte(255 - i)
		}
		return branch(i)
	}
	base := len(e.m.e)
	for i := 0; i < to; i++ {
		e.put(cat(e.pre, label(i)))
		if i+1 >= from {
			e.cheap("growing")
		}
	}
	for i := 0; i < to-from; i++ {
		j := i
		if sym.Param("back", 0) == 1 {
			j = to - 1 - i
		}
		en := &e.m.e[base+j]
		t, v, ok := e.t.Delete(cp(en.k))
		sym.Assert(ok && v == en.v, "shrinking: delete result")
		en.alive = false
		e.t = t
		e.cheap("shrinking")
	}
	o := e.pick("op")
	e.t, _ = onTree(e.t, o)
	e.onModel(o)
	e.whole(e.t, "after shrinking")
	sym.Reach("end")
}

// cheap reads the whole tree back when all keys are concrete and distinct.
func (e *env) cheap(what string) {
	n := 0
	c := conj()
	for i := range e.m.e {
		en := &e.m.e[i]
		v, ok := e.t.Get(en.k)
		c.add(ok == en.alive)
		if en.alive {
			n++
			c.add(v == en.v)
		}
	}
	c.add(e.t.Len() == n)
	got := forward(e.t, e.limit())
	c.add(len(got) == n)
	for i := 1; i < len(got); i++ {
		c.add(sym.Less(got[i-1].k, got[i].k))
	}
	rev := drainReverse(e.t.Root().ReverseIterator(), e.limit())
	c.add(len(rev) == n)
	for i := range rev {
		c.add(sym.Eq(rev[i].k, got[len(got)-1-i].k))
	}
	c.must(what)
}

// C17 is the long-prefix template: updates at any position of the shared part,
// then everything read back or a free read.
func C17() {
	e := build()
	c := conj()
	n := sym.Param("ops", 1)
	for i := 0; i < n; i++ {
		o := e.pick("op")
		t, r := onTree(e.t, o)
		e.t = t
		w := e.onModel(o)
		c.add(sym.Iff(r.ok, w.ok))
		c.add(sym.Implies(w.ok, r.v == w.v))
	}
	c.must("update result")
	if sym.Param("q", 0) == 0 {
		e.whole(e.t, "long prefixes")
	} else {
		e.queries(e.t, e.gen("q"))
	}
	sym.Reach("end")
}
