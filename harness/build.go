package harness

import (
	adaptive "github.com/absolutelightning/go-immutable-adaptive-radix"
	"verif/harness/sym"
)

type tree = adaptive.RadixTree[int]
type txn = adaptive.Txn[int]

// env is a tree together with the oracle for its content.
//
// Templates (parameter tmpl):
//
//	0 short:  keys of any length up to len, all bytes free
//	1 wide:   a node below a plen byte prefix with fan children, reached by
//	          growing to grow children first; optionally with a key on the node;
//	          with plen > 1 operation keys leave the prefix at listed positions
//	          sib is the number of siblings above the node
//	2 long:   keys sharing a plen byte prefix; operation keys cut or change the
//	          shared part at any listed position
//	3 chain:  every prefix of a plen byte key is stored
type env struct {
	t    *tree
	m    *model
	next int
	tmpl int
	len  int
	pre  []byte
	pos  []int
	last []byte
}

// shared is the common prefix of a template.
func shared(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return b
}

func build() *env {
	e := &env{t: adaptive.NewRadixTree[int](), m: &model{}, next: 1000}
	e.tmpl = sym.Param("tmpl", 0)
	e.len = sym.Param("len", 2)
	plen := sym.Param("plen", 1)
	switch e.tmpl {
	case 0:
		for _, k := range seeds[sym.Param("seed", 0)] {
			e.put([]byte(k))
		}
	case 1:
		e.pre = shared(plen)
		if plen > 1 || sym.Param("sib", 0) > 1 {
			e.cuts(plen)
		}
		e.wide(sym.Param("fan", 4), sym.Param("grow", 0), sym.Param("leaf", 0))
	case 2:
		e.pre = shared(plen)
		e.long(plen, sym.Param("leaf", 0), sym.Param("shape", 0))
	case 3:
		e.pre = shared(plen)
		e.cuts(plen)
		// every prefix of the shared part is stored, the longest first or last
		for i := 0; i <= plen; i++ {
			if sym.Param("shape", 0) == 0 {
				e.put(e.pre[:i])
			} else {
				e.put(e.pre[:plen-i])
			}
		}
	}
	return e
}

var seeds = [][]string{
	nil,
	{"a", "ab", "abc"},
	{"", "$", "a$"},
	{"b", "bca", "bcb", "d"},
	{"\x00", "\x00\x00", "\xff", "\xff\xff"},
}

func (e *env) put(k []byte) {
	e.next++
	e.t, _, _ = e.t.Insert(cp(k), e.next)
	e.m.add(k, e.next)
}

// branch is the i-th byte used below the common prefix (a bijection on bytes).
func branch(i int) byte { return byte(i*37 + 11) }

// wideKeys are the keys below the i-th branch of a wide node.
func (e *env) wideKeys(i int) [][]byte {
	b := branch(i)
	switch {
	case i == 1:
		return [][]byte{cat(e.pre, b, 'x'), cat(e.pre, b, 'y')}
	case i%5 == 2:
		return [][]byte{cat(e.pre, b, 'x')}
	}
	return [][]byte{cat(e.pre, b)}
}

func (e *env) wide(fan, grow, leaf int) {
	if grow < fan {
		grow = fan
	}
	x := e.t.Txn()
	if leaf == 1 {
		e.next++
		x.Insert(cp(e.pre), e.next)
		e.m.add(e.pre, e.next)
	}
	for i := 0; len(e.pre) > 0 && i < sym.Param("sib", 0); i++ {
		// siblings above the node, so that the node is not the root
		k := cat(e.pre[:len(e.pre)-1], 'Z')
		if i > 0 {
			k[len(k)-1] = branch(i + 48)
		}
		e.next++
		x.Insert(cp(k), e.next)
		e.m.add(k, e.next)
	}
	for i := 0; i < grow; i++ {
		for _, k := range e.wideKeys(i) {
			e.next++
			x.Insert(cp(k), e.next)
			if i >= grow-fan {
				e.m.add(k, e.next)
			}
		}
	}
	e.t = x.Commit()
	if grow > fan {
		x = e.t.Txn()
		for i := 0; i < grow-fan; i++ {
			for _, k := range e.wideKeys(i) {
				x.Delete(cp(k))
			}
		}
		e.t = x.Commit()
	}
	if leaf == 2 {
		// the key on the node arrives last
		e.put(e.pre)
	}
}

func (e *env) long(plen, leaf, shape int) {
	e.cuts(plen)
	if leaf == 1 {
		e.put(e.pre)
	}
	e.put(cat(e.pre, 'A', '1'))
	if shape >= 1 {
		e.put(cat(e.pre, 'B'))
	}
	if shape == 2 {
		// splits the shared part once before the inline limit
		e.put(cat(e.pre[:3], 'Z'))
	}
	if shape == 3 {
		// and once behind it
		e.put(cat(e.pre[:plen-1], 'Z', 'Z'))
	}
	if shape == 4 {
		e.put(cat(e.pre, 'A', '2'))
	}
}

// cuts selects the positions at which keys leave the shared prefix: around its
// ends and the inline limit, or all of them with npos=1.
func (e *env) cuts(plen int) {
	all := sym.Param("npos", 0) == 1
	for i := 0; i <= plen; i++ {
		if all || i == 0 || i == 9 || i == 10 || i == 11 || i >= plen-1 {
			e.pos = append(e.pos, i)
		}
	}
}

// gen returns a key for an operation or a query.
func (e *env) gen(name string) []byte {
	switch e.tmpl {
	case 1:
		if len(e.pos) > 0 {
			c := sym.Choice(name+".form", 2*len(e.pos)+1)
			if c == 2*len(e.pos) {
				return cat(e.pre, sym.Byte(name), 'x')
			}
			p := e.pos[c/2]
			if c%2 == 0 {
				return cp(e.pre[:p])
			}
			return cat(e.pre[:p], sym.Byte(name))
		}
		c := sym.Choice(name+".form", len(e.pre)+3)
		switch {
		case c == 0:
			return cat(e.pre, sym.Byte(name))
		case c == 1:
			return cat(e.pre, sym.Byte(name), 'x')
		}
		return cp(e.pre[:c-2])
	case 2, 3:
		p := e.pos[sym.Choice(name+".pos", len(e.pos))]
		switch sym.Choice(name+".form", 3) {
		case 0:
			return cp(e.pre[:p])
		case 1:
			return cat(e.pre[:p], sym.Byte(name))
		}
		k := cat(e.pre, 'A', '1')
		k[p] = sym.Byte(name)
		return k
	}
	return key(name, e.len)
}

// op is one update applied to tree and oracle alike.
type op struct {
	kind int // 0 insert, 1 delete, 2 delete prefix
	k    []byte
	v    int
}

// pickN is pick for the i-th update of a sequence. With rep=1 only the first is
// fully free; the later ones use keys related to it, one child deeper or
// shallower, or one of a few keys of the template.
func (e *env) pickN(name string, i int) op {
	if i == 0 || sym.Param("rep", 0) == 0 {
		o := e.pick(name)
		e.last = o.k
		return o
	}
	o := op{kind: e.kind(name)}
	e.next++
	o.v = e.next
	switch sym.Choice(name+".rel", 4) {
	case 0:
		o.k = cp(e.last)
	case 1:
		o.k = cat(e.last, 'x')
	case 2:
		o.k = cp(e.pre)
	case 3:
		o.k = cat(e.pre, branch(1), 'y')
		if e.tmpl == 2 {
			o.k = cat(e.pre, 'A')
		}
	}
	return o
}

// pick chooses an update.
func (e *env) pick(name string) op {
	kind := e.kind(name)
	e.next++
	return op{kind, e.gen(name), e.next}
}

// kind chooses the kind of an update; mask selects the kinds considered.
func (e *env) kind(name string) int {
	mask := sym.Param("mask", 7)
	var kinds []int
	for i := 0; i < 3; i++ {
		if mask>>i&1 == 1 {
			kinds = append(kinds, i)
		}
	}
	kind := kinds[0]
	if len(kinds) > 1 {
		kind = kinds[sym.Choice(name+".kind", len(kinds))]
	}
	return kind
}

// result of an update: previous or removed value and whether there was one.
type result struct {
	v  int
	ok bool
}

func (e *env) onModel(o op) result {
	switch o.kind {
	case 0:
		v, ok := e.m.insert(o.k, o.v)
		return result{v, ok}
	case 1:
		v, ok := e.m.delete(o.k)
		return result{v, ok}
	}
	n := e.m.deletePrefix(o.k)
	return result{0, n > 0}
}

func onTree(t *tree, o op) (*tree, result) {
	switch o.kind {
	case 0:
		t, v, ok := t.Insert(cp(o.k), o.v)
		return t, result{v, ok}
	case 1:
		t, v, ok := t.Delete(cp(o.k))
		return t, result{v, ok}
	}
	t, ok := t.DeletePrefix(cp(o.k))
	return t, result{0, ok}
}

func onTxn(x *txn, o op) result {
	switch o.kind {
	case 0:
		v, ok := x.Insert(cp(o.k), o.v)
		return result{v, ok}
	case 1:
		v, ok := x.Delete(cp(o.k))
		return result{v, ok}
	}
	return result{0, x.DeletePrefix(cp(o.k))}
}

// history applies ops symbolic updates to tree and oracle.
func (e *env) history() {
	n := sym.Param("ops", 2)
	if sym.Param("via", 0) == 0 {
		for i := 0; i < n; i++ {
			o := e.pick("op")
			e.t, _ = onTree(e.t, o)
			e.onModel(o)
		}
		return
	}
	x := e.t.Txn()
	for i := 0; i < n; i++ {
		o := e.pick("op")
		onTxn(x, o)
		e.onModel(o)
	}
	e.t = x.Commit()
}

// pair is one entry produced by an iteration.
type pair struct {
	k []byte
	v int
}

// limit bounds how many entries an iteration may produce before it is called
// endless.
func (e *env) limit() int { return len(e.m.e) + 3 }

// exact asserts that got lists exactly the live keys satisfying f, in strictly
// ascending (or descending) order, with their values.
func (e *env) exact(got []pair, f func(k []byte) bool, desc bool, what string) {
	c := conj()
	for i, g := range got {
		c.add(e.m.holds(g.k, g.v))
		c.add(f(g.k))
		if i > 0 {
			if desc {
				c.add(sym.Less(g.k, got[i-1].k))
			} else {
				c.add(sym.Less(got[i-1].k, g.k))
			}
		}
	}
	c.add(e.m.count(f) == len(got))
	c.must(what)
}

func anyKey([]byte) bool { return true }

func forward(t *tree, limit int) []pair {
	it := t.Root().Iterator()
	return drainIter(it, limit)
}

func drainIter(it *adaptive.Iterator[int], limit int) []pair {
	var r []pair
	for {
		k, v, ok := it.Next()
		if !ok {
			return r
		}
		r = append(r, pair{k, v})
		if len(r) > limit {
			sym.Assert(false, "iteration does not end")
		}
	}
}

func drainLower(it *adaptive.LowerBoundIterator[int], limit int) []pair {
	var r []pair
	for {
		k, v, ok := it.Next()
		if !ok {
			return r
		}
		r = append(r, pair{k, v})
		if len(r) > limit {
			sym.Assert(false, "iteration does not end")
		}
	}
}

func drainReverse(it *adaptive.ReverseIterator[int], limit int) []pair {
	var r []pair
	for {
		k, v, ok := it.Previous()
		if !ok {
			return r
		}
		r = append(r, pair{k, v})
		if len(r) > limit {
			sym.Assert(false, "iteration does not end")
		}
	}
}

func drainPath(it *adaptive.PathIterator[int], limit int) []pair {
	var r []pair
	for {
		k, v, ok := it.Next()
		if !ok {
			return r
		}
		r = append(r, pair{k, v})
		if len(r) > limit {
			sym.Assert(false, "iteration does not end")
		}
	}
}

// lookups asserts that every recorded key and q are found as the oracle says.
func (e *env) lookups(t *tree, what string) {
	c := conj()
	for i := range e.m.e {
		en := &e.m.e[i]
		v, ok := t.Get(en.k)
		wok, wv := true, en.v
		if !sym.Known(en.alive) {
			wv, wok = e.m.get(en.k)
		}
		c.add(sym.Iff(ok, wok))
		c.add(sym.Implies(ok, v == wv))
	}
	c.must(what)
}

// content asserts lookups of all recorded keys, length and full iteration.
func (e *env) content(t *tree, what string) {
	sym.Assert(t.Len() == e.m.len(), what+": length")
	e.lookups(t, what+": lookups")
	e.exact(forward(t, e.limit()), anyKey, false, what+": iteration")
}

func observe(ps []pair) {
	sym.Observe("n", len(ps))
	for _, p := range ps {
		sym.ObserveBytes("k", p.k)
		sym.Observe("v", p.v)
	}
}
