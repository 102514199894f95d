package harness

import (
	"verif/harness/sym"
)

type watch struct {
	ch     <-chan struct{}
	q      []byte
	prefix bool
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// take obtains a watch: kind 0 key, 1 prefix through the forward iterator,
// 2 prefix through the reverse iterator.
func take(t *tree, kind int, q []byte) watch {
	w := watch{q: q, prefix: kind > 0}
	switch kind {
	case 0:
		w.ch, _, _ = t.GetWatch(cp(q))
	case 1:
		w.ch = t.Root().Iterator().SeekPrefixWatch(cp(q))
	case 2:
		w.ch = t.Root().ReverseIterator().SeekPrefixWatch(cp(q))
	}
	return w
}

// touches says whether applying o to m changes what w watches.
func (w *watch) touches(m *model, o op) bool {
	match := func(k []byte) bool {
		if w.prefix {
			return sym.HasPrefix(k, w.q)
		}
		return sym.Eq(k, w.q)
	}
	switch o.kind {
	case 0:
		return match(o.k)
	case 1:
		return sym.And(match(o.k), m.has(o.k))
	}
	hit := false
	for _, en := range m.e {
		hit = sym.Or(hit, sym.And(en.alive, sym.And(sym.HasPrefix(en.k, o.k), match(en.k))))
	}
	return hit
}

// wkind picks the kinds of watch considered (parameter wk is a mask).
func wkind() int {
	mask := sym.Param("wk", 7)
	var ks []int
	for i := 0; i < 3; i++ {
		if mask>>i&1 == 1 {
			ks = append(ks, i)
		}
	}
	if len(ks) == 1 {
		return ks[0]
	}
	return ks[sym.Choice("wk", len(ks))]
}

func (e *env) before() {
	for i := 0; i < sym.Param("pre", 0); i++ {
		o := e.pickN("pre", i)
		e.t, _ = onTree(e.t, o)
		e.onModel(o)
	}
}

// C11: every change made by tracked transactions closes the watches it concerns.
//
// chain is the number of transactions in a row, ops the updates in each; when
// is the moment the watch is taken from the first tree: 0 before, 1 after the
// first update of the first transaction, 2 after the last commit but before its
// notification, 3 afterwards. With reuse=1 one transaction is committed again
// and again; with clone=1 it is cloned after each update and the clone written
// to.
func C11() {
	e := build()
	e.before()
	base := e.t
	q := e.gen("q")
	kind := wkind()
	when := sym.Param("when", 0)
	var w watch
	w.q, w.prefix = q, kind > 0
	take1 := func(at int) {
		if when == at {
			w.ch = take(base, kind, q).ch
		}
	}
	take1(0)
	changed := false
	chain := sym.Param("chain", 1)
	step := 0
	var x *txn
	for c := 0; c < chain; c++ {
		if c == 0 || sym.Param("reuse", 0) == 0 {
			x = e.t.Txn()
		}
		x.TrackMutate(true)
		for i := 0; i < sym.Param("ops", 1); i++ {
			o := e.pickN("op", step)
			step++
			changed = sym.Or(changed, w.touches(e.m, o))
			onTxn(x, o)
			e.onModel(o)
			if sym.Param("clone", 0) == 1 {
				onTxn(x.Clone(), op{0, o.k, 1})
			}
			if c == 0 && i == 0 {
				take1(1)
			}
		}
		if sym.Param("only", 0) == 1 || when == 2 {
			e.t = x.CommitOnly()
			if c == chain-1 {
				take1(2)
			}
			x.Notify()
		} else {
			e.t = x.Commit()
		}
	}
	take1(3)
	sym.Assert(sym.Implies(changed, closed(w.ch)), "watch closed by a change")
	observeClosed(w.ch)
	sym.Reach("end")
}

// C12: watches do not fire early, untracked or for nothing.
//
//	how 0 open until notified; the new tree hands out open channels; watches of
//	      existing keys that were not changed stay open
//	    1 untracked: nothing is closed, before or after Commit and Notify
//	    2 tracked but abandoned
//	    3 a clone (tracking off) is committed, the tracked original abandoned
//	    4 tracked and committed but never notified, then tracking switched off
func C12() {
	e := build()
	e.before()
	q := e.gen("q")
	how := sym.Param("how", 0)
	var ws []watch
	mask := sym.Param("wk", 7)
	for k := 0; k < 3; k++ {
		if mask>>k&1 == 1 {
			ws = append(ws, take(e.t, k, q))
		}
	}
	open := func(what string) {
		c := conj()
		for _, w := range ws {
			c.add(!closed(w.ch))
		}
		c.must(what)
	}
	open("fresh watches are open")
	existed := e.m.has(q)
	chain := sym.Param("chain", 1)
	step := 0
	var x *txn
	for c := 0; c < chain; c++ {
		if c == 0 || sym.Param("reuse", 0) == 0 {
			x = e.t.Txn()
		}
		x.TrackMutate(how != 1)
		key := watch{q: q}
		changed := false
		for i := 0; i < sym.Param("ops", 1); i++ {
			o := e.pickN("op", step)
			step++
			changed = sym.Or(changed, key.touches(e.m, o))
			onTxn(x, o)
			e.onModel(o)
		}
		open("watches stay open while a transaction is open")
		switch how {
		case 0:
			e.t = x.CommitOnly()
			open("watches stay open until notification")
			var fresh []watch
			for k := 0; k < 3; k++ {
				if mask>>k&1 == 1 {
					fresh = append(fresh, take(e.t, k, q))
				}
			}
			x.Notify()
			if mask&1 == 1 {
				sym.Assert(sym.Implies(sym.And(existed, !changed), !closed(ws[0].ch)), "watch of an unchanged key stays open")
			}
			cc := conj()
			for _, w := range fresh {
				cc.add(!closed(w.ch))
			}
			for k := 0; k < 3; k++ {
				if mask>>k&1 == 1 {
					cc.add(!closed(take(e.t, k, q).ch))
				}
			}
			cc.must("a committed tree hands out open channels")
			ws = fresh
			existed = e.m.has(q)
		case 1:
			e.t = x.Commit()
			x.Notify()
			open("an untracked transaction closes nothing")
			for k := 0; k < 3; k++ {
				if mask>>k&1 == 1 {
					ws = append(ws, take(e.t, k, q))
				}
			}
			open("channels after an untracked transaction")
		case 2:
			open("an abandoned transaction closes nothing")
			sym.Reach("end")
			return
		case 3:
			y := x.Clone()
			o := e.pickN("op", step)
			onTxn(y, o)
			y.Commit()
			y.Notify()
			open("committing a clone closes nothing")
			sym.Reach("end")
			return
		case 4:
			x.CommitOnly()
			open("committed but not notified")
			x.TrackMutate(false)
			x.Commit()
			open("tracking switched off")
			sym.Reach("end")
			return
		}
	}
	sym.Observe("n", e.t.Len())
	sym.Reach("end")
}

// C21: watches taken inside a tracked transaction, and watches of a tree that
// several tracked transactions started from.
//
//	how 0 taken after pre updates of the transaction, followed by ops further
//	      ones and a commit, and by another tracked transaction
//	    1 taken from a tree two transactions were opened on; both are committed,
//	      in either order
func C21() {
	e := build()
	q := e.gen("q")
	kind := wkind()
	n := sym.Param("ops", 1)
	if sym.Param("how", 0) == 1 {
		w := take(e.t, kind, q)
		w2 := take(e.t, 0, q)
		m0 := e.m
		var xs [2]*txn
		var hit [2]bool
		touched := false
		for i := range xs {
			xs[i] = e.t.Txn()
			xs[i].TrackMutate(true)
			e.m = m0.clone()
			for j := 0; j < n; j++ {
				o := e.pickN("op", i*n+j)
				hit[i] = sym.Or(hit[i], w.touches(e.m, o))
				touched = sym.Or(touched, w2.touches(e.m, o))
				onTxn(xs[i], o)
				e.onModel(o)
			}
		}
		first := sym.Choice("first", 2)
		xs[first].Commit()
		sym.Assert(sym.Implies(hit[first], closed(w.ch)), "watch closed by the first commit")
		xs[1-first].Commit()
		sym.Assert(sym.Implies(sym.Or(hit[0], hit[1]), closed(w.ch)), "watch closed by the second commit")
		sym.Assert(sym.Implies(sym.And(m0.has(q), !touched), !closed(w2.ch)), "watch of an unchanged key stays open")
		observeClosed(w.ch)
		sym.Reach("end")
		return
	}
	x := e.t.Txn()
	x.TrackMutate(true)
	write := func(x *txn, name string, i int) op {
		o := e.pickN(name, i)
		onTxn(x, o)
		return o
	}
	pre := sym.Param("pre", 1)
	for i := 0; i < pre; i++ {
		e.onModel(write(x, "op", i))
	}
	w := watch{q: q, prefix: kind > 0}
	switch kind {
	case 0:
		w.ch, _, _ = x.GetWatch(cp(q))
	case 1:
		w.ch = x.Root().Iterator().SeekPrefixWatch(cp(q))
	case 2:
		w.ch = x.Root().ReverseIterator().SeekPrefixWatch(cp(q))
	}
	sym.Assert(!closed(w.ch), "a watch taken inside a transaction is open")
	existed := e.m.has(q)
	changed := false
	for i := 0; i < n; i++ {
		o := write(x, "op", pre+i)
		changed = sym.Or(changed, w.touches(e.m, o))
		e.onModel(o)
	}
	sym.Assert(!closed(w.ch), "watches stay open while a transaction is open")
	e.t = x.Commit()
	stays := func(what string) {
		sym.Assert(sym.Implies(changed, closed(w.ch)), what)
		if kind == 0 {
			sym.Assert(sym.Implies(sym.And(existed, !changed), !closed(w.ch)), "watch of an unchanged key stays open")
		}
	}
	stays("watch closed by a later write of its transaction")
	y := e.t.Txn()
	y.TrackMutate(true)
	o := write(y, "op", pre+n)
	changed = sym.Or(changed, w.touches(e.m, o))
	e.onModel(o)
	y.Commit()
	stays("watch closed by the next transaction")
	observeClosed(w.ch)
	sym.Reach("end")
}

func observeClosed(ch <-chan struct{}) {
	if closed(ch) {
		sym.Observe("closed", 1)
	} else {
		sym.Observe("closed", 0)
	}
}
