package main

import "math/bits"

// Every symbolic variable is one byte, so the values the path condition leaves
// open for it fit a 256-bit set. Conditions over a single variable are decided
// on that set; everything else goes to the solver.

type dset [4]uint64

func (d *dset) has(v uint64) bool { return d[v>>6]>>(v&63)&1 == 1 }
func (d *dset) first() uint64 {
	for i, w := range d {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}
func (d *dset) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}

var fullDom = dset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

const multiVar = uint64(1) << 63

// unary reports the only variable of e.
func (e *Expr) unary() (int, bool) {
	if e.vars == 0 || e.vars&multiVar != 0 || e.vars&(e.vars-1) != 0 {
		return 0, false
	}
	return bits.TrailingZeros64(e.vars), true
}

// truth returns the values of the only variable of e for which e holds.
func (x *Ctx) truth(e *Expr, v int) *dset {
	if e.ts != nil {
		return e.ts
	}
	if e.op == OBNot {
		t := x.truth(e.a, v)
		e.ts = &dset{^t[0], ^t[1], ^t[2], ^t[3]}
		return e.ts
	}
	var r dset
	m := make(Model, v+1)
	for i := uint64(0); i < 256; i++ {
		m[v] = i
		if x.Eval(e, m) == 1 {
			r[i>>6] |= 1 << (i & 63)
		}
	}
	e.ts = &r
	return e.ts
}

func (st *State) domOf(v int) *dset {
	if v < len(st.dom) && st.dom[v] != nil {
		return st.dom[v]
	}
	return &fullDom
}

// narrow records a new conjunct of the path condition.
func (st *State) narrow(c *Expr) {
	v, ok := c.unary()
	if !ok {
		if c.op == OBAnd {
			st.narrow(c.a)
			st.narrow(c.b)
			return
		}
		st.linked |= c.vars
		return
	}
	t := st.w.x.truth(c, v)
	d := st.domOf(v)
	n := dset{d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]}
	nd := make([]*dset, max(len(st.dom), v+1))
	copy(nd, st.dom)
	nd[v] = &n
	st.dom = nd
	st.narrowed |= 1 << v
}

// simp rewrites e using what the path condition says about single variables.
func (st *State) simp(e *Expr) *Expr {
	if e.vars&st.narrowed == 0 {
		return e
	}
	if v, ok := e.unary(); ok {
		return st.simpUnary(e, v)
	}
	return st.simpRec(e, map[*Expr]*Expr{})
}

func (st *State) simpUnary(e *Expr, v int) *Expr {
	x := st.w.x
	d := st.domOf(v)
	if e.w == 0 {
		t := x.truth(e, v)
		in, out := false, false
		for i := range d {
			in = in || d[i]&t[i] != 0
			out = out || d[i]&^t[i] != 0
		}
		if !out {
			return x.True
		}
		if !in {
			return x.False
		}
		return e
	}
	if d.count() == 1 {
		m := make(Model, v+1)
		m[v] = d.first()
		return x.Const(e.w, x.Eval(e, m))
	}
	return e
}

func (st *State) simpRec(e *Expr, memo map[*Expr]*Expr) *Expr {
	if e.vars&st.narrowed == 0 {
		return e
	}
	if v, ok := e.unary(); ok {
		if r := st.simpUnary(e, v); r != e || e.w == 0 {
			return r
		}
		if e.op == OVar {
			return e
		}
	}
	if r, ok := memo[e]; ok {
		return r
	}
	x := st.w.x
	var a, b, d *Expr
	if e.a != nil {
		a = st.simpRec(e.a, memo)
	}
	var r *Expr
	// short cuts
	if e.op == OBAnd && a == x.False {
		r = x.False
	} else if e.op == OBOr && a == x.True {
		r = x.True
	} else if e.op == OIte && a.isC() {
		if a.c == 1 {
			r = st.simpRec(e.b, memo)
		} else {
			r = st.simpRec(e.d, memo)
		}
	} else {
		if e.b != nil {
			b = st.simpRec(e.b, memo)
		}
		if e.d != nil {
			d = st.simpRec(e.d, memo)
		}
		if a == e.a && b == e.b && d == e.d {
			r = e
		} else {
			r = x.rebuild(e, a, b, d)
			if v, ok := r.unary(); ok {
				r = st.simpUnary(r, v)
			}
		}
	}
	if r.w == 0 && (r.op == OEq || r.op == OUlt) && r.a.op == OVar && r.b.op == OVar {
		// two variables with disjoint or ordered value sets
		da, db := st.domOf(int(r.a.c)), st.domOf(int(r.b.c))
		if r.op == OEq && da[0]&db[0]|da[1]&db[1]|da[2]&db[2]|da[3]&db[3] == 0 {
			r = x.False
		}
	}
	memo[e] = r
	return r
}

func (x *Ctx) rebuild(e, a, b, d *Expr) *Expr {
	switch e.op {
	case OZext:
		return x.Zext(a, e.w)
	case OSext:
		return x.Sext(a, e.w)
	case OExtract:
		return x.Trunc(a, e.w)
	case OEq:
		return x.Eq(a, b)
	case OUlt:
		return x.Ult(a, b)
	case OSlt:
		return x.Slt(a, b)
	case OIte:
		return x.Ite(a, b, d)
	case OBAnd:
		return x.And(a, b)
	case OBOr:
		return x.Or(a, b)
	case OBNot:
		return x.Not(a)
	}
	return x.Bin(e.op, a, b)
}

// free decides c without the solver when its only variable is not related to
// any other variable: both outcomes are then feasible, and a model for either
// is the current one with that variable changed.
func (st *State) free(c *Expr) (mt, mf Model, ok bool) {
	v, un := c.unary()
	if !un || st.linked&c.vars != 0 || len(st.models) == 0 {
		return nil, nil, false
	}
	t := st.w.x.truth(c, v)
	d := st.domOf(v)
	in := dset{d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]}
	out := dset{d[0] &^ t[0], d[1] &^ t[1], d[2] &^ t[2], d[3] &^ t[3]}
	if in == (dset{}) || out == (dset{}) {
		return nil, nil, false
	}
	base := st.models[len(st.models)-1]
	with := func(val uint64) Model {
		n := make(Model, max(len(base), v+1))
		copy(n, base)
		n[v] = val
		return n
	}
	return with(in.first()), with(out.first()), true
}

// recheck is the interval at which domain decisions are put to the solver too.
var recheck int64 = 200

// domDecided counts a condition settled by value sets; a fixed share of them is
// confirmed by the solver.
func (st *State) domDecided(c *Expr, v bool) {
	r := &st.w.res
	r.DomDecided++
	if r.DomDecided%recheck != 1 && recheck != 1 {
		return
	}
	r.DomRechecked++
	if v {
		c = st.w.x.Not(c)
	}
	if s, _ := st.w.solver.Check(st.pc, c, st.nvars); s == SatYes {
		st.end(endError, "value sets disagree with the solver")
	}
}

// settle simplifies a condition the harness builds.
func (st *State) settle(c *Expr) *Expr {
	r := st.simp(c)
	if r != c && r.isC() {
		st.domDecided(c, r.c == 1)
	}
	return r
}
