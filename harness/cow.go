package harness

import (
	"verif/harness/sym"
)

// reading is everything observable through a tree at one moment.
type reading struct {
	t        *tree
	n        int
	fwd, rev []pair
	lo, hi   pair
	ok, ok2  bool
	gets     []result
}

// read looks at all of t, and looks up keys in it. The cost of a full look is
// paid only where the parameter full allows.
func (e *env) read(t *tree, keys [][]byte) *reading {
	r := &reading{t: t, n: t.Len()}
	r.fwd = forward(t, e.limit()+4)
	if sym.Param("full", 1) == 1 {
		r.rev = drainReverse(t.Root().ReverseIterator(), e.limit()+4)
		r.lo, r.ok = leafPair(t.Minimum())
		r.hi, r.ok2 = leafPair(t.Maximum())
	}
	for _, k := range keys {
		v, ok := t.Get(cp(k))
		r.gets = append(r.gets, result{v, ok})
	}
	return r
}

func samePairs(c *all, a, b []pair) {
	c.add(len(a) == len(b))
	if len(a) != len(b) {
		return
	}
	for i := range a {
		c.add(sym.Eq(a[i].k, b[i].k))
		c.add(a[i].v == b[i].v)
	}
}

// unchanged reads the tree of r again and asserts that nothing differs.
func (e *env) unchanged(r *reading, keys [][]byte, what string) {
	n := e.read(r.t, keys)
	c := conj()
	c.add(n.n == r.n)
	samePairs(c, n.fwd, r.fwd)
	samePairs(c, n.rev, r.rev)
	c.add(n.ok == r.ok)
	c.add(n.ok2 == r.ok2)
	if n.ok && r.ok {
		c.add(sym.And(sym.Eq(n.lo.k, r.lo.k), n.lo.v == r.lo.v))
	}
	if n.ok2 && r.ok2 {
		c.add(sym.And(sym.Eq(n.hi.k, r.hi.k), n.hi.v == r.hi.v))
	}
	for i := range n.gets {
		c.add(n.gets[i].ok == r.gets[i].ok)
		c.add(n.gets[i].v == r.gets[i].v)
	}
	c.must(what)
}

// C09 looks at published trees before and after deriving others from them.
//
//	via 0 single updates, each result published
//	    1 a transaction, committed, used again and committed again
//	    2 a transaction that is abandoned
//	    3 a transaction and its clone, both written to and committed
//	    4 a cloned tree, updated directly and through a transaction
func C09() {
	e := build()
	for i := 0; i < sym.Param("pre", 0); i++ {
		o := e.pick("pre")
		e.t, _ = onTree(e.t, o)
		e.onModel(o)
	}
	n := sym.Param("ops", 2)
	var ops []op
	var keys [][]byte
	for i := 0; i < n; i++ {
		o := e.pickN("op", i)
		ops = append(ops, o)
		keys = append(keys, o.k)
	}
	for _, en := range e.m.e {
		keys = append(keys, en.k)
	}
	base := e.t
	seen := []*reading{e.read(base, keys)}
	publish := func(t *tree) { seen = append(seen, e.read(t, keys)) }
	track := sym.Param("track", 0) == 1
	begin := func(t *tree) *txn {
		x := t.Txn()
		x.TrackMutate(track)
		return x
	}
	switch sym.Param("via", 0) {
	case 0:
		t := base
		for _, o := range ops {
			t, _ = onTree(t, o)
			publish(t)
		}
		// and the other way round from the base
		t = base
		for i := len(ops) - 1; i > 0; i-- {
			t, _ = onTree(t, ops[i])
		}
	case 1:
		x := begin(base)
		for _, o := range ops {
			onTxn(x, o)
			publish(x.Commit())
		}
		onTxn(x, op{0, ops[0].k, 1})
		publish(x.CommitOnly())
		onTxn(x, op{1, ops[0].k, 2})
		x.Commit()
	case 2:
		x := begin(base)
		for _, o := range ops {
			onTxn(x, o)
		}
	case 3:
		x := begin(base)
		onTxn(x, ops[0])
		y := x.Clone()
		y.TrackMutate(track)
		for i, o := range ops[1:] {
			if i%2 == 0 {
				onTxn(y, o)
				publish(y.Commit())
			} else {
				onTxn(x, o)
				publish(x.Commit())
			}
		}
		onTxn(x, op{1, ops[0].k, 2})
		publish(x.Commit())
		onTxn(y, op{0, ops[0].k, 3})
		y.Commit()
	case 4:
		cl := base.Clone()
		e.content(cl, "clone of a tree")
		publish(cl)
		t := cl
		for i, o := range ops {
			if i%2 == 0 {
				t, _ = onTree(t, o)
			} else {
				x := begin(t)
				onTxn(x, o)
				t = x.Commit()
			}
			publish(t)
		}
		onTree(base, ops[0])
	}
	for _, r := range seen {
		e.unchanged(r, keys, "published tree")
	}
	observe(seen[len(seen)-1].fwd)
	sym.Reach("end")
}

// C10 compares what transactions, their clones and their commits hold with one
// oracle each.
//
//	via 0 write, look, commit, write again, commit again
//	    1 write, clone, write to both, commit both
//	    2 clone of a clone, committed in the other order
func C10() {
	e := build()
	base, m0 := e.t, e.m
	track := sym.Param("track", 0) == 1
	step := 0
	// write applies one free update to a transaction and its oracle
	write := func(x *txn, m *model) {
		e.m = m
		o := e.pickN("op", step)
		step++
		r, w := onTxn(x, o), e.onModel(o)
		sym.Assert(sym.Iff(r.ok, w.ok), "update result in a transaction")
		v, ok := x.Get(cp(o.k))
		if o.kind == 0 {
			sym.Assert(ok && v == o.v, "transaction sees its own write")
		} else {
			sym.Assert(!ok, "transaction sees its own delete")
		}
		if sym.Param("look", 0) == 1 {
			e.content(x.GetTree(), "inside the transaction")
			e.exact(drainIter(x.Root().Iterator(), e.limit()), anyKey, false, "iteration inside the transaction")
			k, v, ok := x.LongestPrefix(cp(o.k))
			e.longest(o.k, k, v, ok, "LongestPrefix inside the transaction")
		}
	}
	is := func(t *tree, m *model, what string) {
		e.m = m
		e.content(t, what)
	}
	begin := func() *txn {
		x := base.Txn()
		x.TrackMutate(track)
		return x
	}
	switch sym.Param("via", 0) {
	case 0:
		x, m := begin(), m0.clone()
		write(x, m)
		is(base, m0, "base while the transaction is open")
		t1, m1 := x.CommitOnly(), m.clone()
		is(t1, m1, "first commit")
		for i := 1; i < sym.Param("ops", 2); i++ {
			write(x, m)
		}
		t2 := x.Commit()
		is(t2, m, "second commit")
		is(t1, m1, "first commit after the second")
	case 1:
		x, m := begin(), m0.clone()
		write(x, m)
		y, my := x.Clone(), m.clone()
		y.TrackMutate(track)
		is(y.CommitOnly(), my, "fresh clone")
		write(y, my)
		ty := y.CommitOnly()
		if sym.Param("ops", 2) > 2 {
			write(x, m)
		} else {
			onTxn(x, op{0, e.pre, 77})
			m.insert(e.pre, 77)
		}
		tx := x.Commit()
		is(tx, m, "original's commit")
		is(ty, my, "clone's commit")
	case 2:
		x, m := begin(), m0.clone()
		y, my := x.Clone(), m.clone()
		write(x, m)
		z, mz := y.Clone(), m.clone()
		mz = my.clone()
		write(z, mz)
		if sym.Param("ops", 2) > 2 {
			write(y, my)
		}
		is(y.Commit(), my, "middle clone's commit")
		is(x.Commit(), m, "original's commit")
		is(z.Commit(), mz, "last clone's commit")
	}
	is(base, m0, "base")
	observe(forward(base, e.limit()))
	sym.Reach("end")
}
