package harness

import (
	"verif/harness/sym"
)

// seen is what one reader saw.
type seen struct {
	v   int
	ok  bool
	n   int
	ch  <-chan struct{}
	ps  []pair
	key []byte
}

// readAs performs one kind of read of t.
func readAs(t *tree, kind int, q []byte, limit int) seen {
	var s seen
	switch kind {
	case 0:
		s.v, s.ok = t.Get(q)
	case 1:
		s.ch, s.v, s.ok = t.GetWatch(q)
	case 2:
		s.ps = forward(t, limit)
	case 3:
		it := t.Root().Iterator()
		s.ch = it.SeekPrefixWatch(q)
		s.ps = drainIter(it, limit)
	case 4:
		s.ps = drainReverse(t.Root().ReverseIterator(), limit)
	case 5:
		it := t.Root().LowerBoundIterator()
		it.SeekLowerBound(q)
		s.ps = drainLower(it, limit)
	case 6:
		s.key, s.v, s.ok = t.LongestPrefix(q)
		s.n = t.Len()
	case 7:
		it := t.Root().ReverseIterator()
		s.ch = it.SeekPrefixWatch(q)
		s.ps = drainReverse(it, limit)
	case 8:
		s.ps = drainPath(t.GetPathIterator(q), limit)
		_, s.ok = leafPair(t.Minimum())
	}
	return s
}

func sameSeen(a, b seen, what string) {
	c := conj()
	c.add(a.ok == b.ok)
	c.add(a.v == b.v)
	c.add(a.n == b.n)
	c.add(a.ch == b.ch)
	c.add(sym.Eq(a.key, b.key))
	samePairs(c, a.ps, b.ps)
	c.must(what)
}

func (e *env) reader() []byte {
	if sym.Param("qfix", 0) == 0 {
		return e.gen("q")
	}
	i := []int{0, len(e.m.e) / 2, len(e.m.e) - 1}[sym.Choice("q", 3)]
	return cp(e.m.e[i].k)
}

// C15 runs readers of one tree next to a transaction derived from it.
//
//	kind of read per reader: parameters r1, r2 (-1: no such reader, 9: any)
//	key read: free, or with qfix=1 one of three keys of the template
//	writer 0 nothing, 1 transaction committed, 2 tracked transaction committed,
//	       3 transaction cloned, both halves written to by different goroutines,
//	       4 two transactions of the same tree in different goroutines,
//	       5 single updates
func C15() {
	e := build()
	e.before()
	t := e.t
	lim := e.limit() + 4
	q := e.reader()
	kinds := []int{sym.Param("r1", 1), sym.Param("r2", -1)}
	var got []seen
	for i, k := range kinds {
		if k == 9 {
			kinds[i] = sym.Choice("read", 9)
		}
		if k >= 0 {
			got = append(got, seen{})
		}
	}
	var done []chan int
	spawn := func(f func()) {
		d := make(chan int, 1)
		done = append(done, d)
		go func() {
			f()
			d <- 1
		}()
	}
	j := 0
	for _, k := range kinds {
		if k < 0 {
			continue
		}
		i, k := j, k
		j++
		spawn(func() {
			sym.Gate(1 + len(got))
			got[i] = readAs(t, k, q, lim)
		})
	}
	writer := sym.Param("writer", 1)
	var ops []op
	if writer > 0 {
		ops = append(ops, e.pickN("op", 0))
	}
	m2 := e.m.clone()
	var t2 *tree
	sym.Gate(1 + len(got))
	switch writer {
	case 1, 2:
		x := t.Txn()
		x.TrackMutate(writer == 2)
		onTxn(x, ops[0])
		t2 = x.Commit()
	case 3:
		x := t.Txn()
		onTxn(x, ops[0])
		y := x.Clone()
		o := ops[0]
		spawn(func() {
			onTxn(y, op{0, cat(o.k, 'x'), 5})
			y.Commit()
		})
		onTxn(x, op{1, ops[0].k, 6})
		onTxn(x, op{0, ops[0].k, ops[0].v})
		t2 = x.Commit()
		if ops[0].kind == 1 {
			ops = append(ops, op{0, ops[0].k, ops[0].v})
		}
		ops = append(ops, op{0, ops[0].k, ops[0].v})
	case 4:
		o := ops[0]
		spawn(func() {
			y := t.Txn()
			onTxn(y, op{0, cat(o.k, 'x'), 5})
			y.Commit()
		})
		x := t.Txn()
		onTxn(x, ops[0])
		t2 = x.Commit()
	case 5:
		t2, _ = onTree(t, ops[0])
	}
	for _, d := range done {
		<-d
	}
	// alone, afterwards: the same results, and the same channels
	for i := range got {
		k := kinds[i]
		if kinds[0] < 0 {
			k = kinds[1]
		}
		sameSeen(got[i], readAs(t, k, q, lim), "concurrent read equals a read alone")
	}
	if len(got) == 2 && kinds[0] == kinds[1] {
		sym.Assert(got[0].ch == got[1].ch, "concurrent watch requests get the same channel")
	}
	if t2 != nil {
		e.m = m2
		for _, o := range ops {
			e.onModel(o)
		}
		e.content(t2, "concurrent transaction")
	}
	sym.Reach("end")
}
