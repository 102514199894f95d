package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endOK endKind = iota
	endAssume
	endViolation
	endError
	endLimit
	endRedundant
	endDup
)

// pathEnd is thrown (as a Go panic) to finish the current path.
type pathEnd struct {
	kind endKind
	msg  string
}

type input struct {
	name string
	kind byte // 'b' symbolic byte, 'c' choice
	e    *Expr
	c    int
}

type panicRec struct {
	val  Iface
	msg  string
	site string
}

type Thread struct {
	frames  []*Frame
	panic   *panicRec
	vc      VC
	granted bool
	blocked bool
	parked  bool // stopped in front of a scheduling-relevant operation
	fp      []access
	done    bool
	id      int
}

func (t *Thread) top() *Frame { return t.frames[len(t.frames)-1] }

type State struct {
	w       *Worker
	heap    []*Obj
	tok     *token_
	threads []*Thread
	cur     int
	pc      *PC
	models  []Model
	nvars   int
	dom     []*dset // values left open per variable (nil: all)
	// variables with a non-trivial dom; variables related to others by the path condition
	narrowed, linked uint64
	inputs           []input
	obs              []obsRec
	trace            []byte
	replay           []byte
	rp               int
	pending          int
	steps            int64
	mt               bool
	syncVC           map[Ptr]VC
	sched            []byte
	alone            bool   // the thread chosen last was the only one to choose
	sleep            uint64 // threads whose next operation is explored elsewhere
	flags            map[string]bool
	pools            map[Ptr][]Value // what sync.Pools hold
	task             *Task
}

type obsRec struct {
	name string
	v    []*Expr
}

func (st *State) clone() *State {
	n := *st
	st.tok, n.tok = new(token_), new(token_)
	n.heap = append(make([]*Obj, 0, len(st.heap)+256), st.heap...)
	n.threads = make([]*Thread, len(st.threads))
	for i, t := range st.threads {
		nt := *t
		nt.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			nf := *f
			nf.regs = append([]Value(nil), f.regs...)
			nf.defers = f.defers[:len(f.defers):len(f.defers)]
			nt.frames[j] = &nf
		}
		nt.vc = append(VC(nil), t.vc...)
		n.threads[i] = &nt
	}
	n.models = append([]Model(nil), st.models...)
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.trace = append(make([]byte, 0, len(st.trace)+64), st.trace...)
	n.sched = append([]byte(nil), st.sched...)
	if st.syncVC != nil {
		n.syncVC = make(map[Ptr]VC, len(st.syncVC))
		for k, v := range st.syncVC {
			n.syncVC[k] = v
		}
	}
	if st.pools != nil {
		n.pools = make(map[Ptr][]Value, len(st.pools))
		for k, v := range st.pools {
			n.pools[k] = v[:len(v):len(v)]
		}
	}
	if st.flags != nil {
		n.flags = map[string]bool{}
		for k, v := range st.flags {
			n.flags[k] = v
		}
	}
	return &n
}

func (st *State) end(k endKind, f string, a ...any) {
	panic(pathEnd{k, fmt.Sprintf(f, a...)})
}
func (st *State) unsup(f string, a ...any) {
	panic(pathEnd{endError, "unsupported: " + fmt.Sprintf(f, a...) + " at " + st.where()})
}

func (st *State) where() string {
	t := st.threads[st.cur]
	var sb strings.Builder
	for i := len(t.frames) - 1; i >= 0 && i > len(t.frames)-7; i-- {
		f := t.frames[i]
		pos := ""
		if f.blk != nil && f.ip < len(f.blk.ins) {
			if in := f.blk.ins[f.ip].in; in != nil && in.Pos().IsValid() {
				p := st.w.prog.P.Fset.Position(in.Pos())
				pos = fmt.Sprintf("@%s:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
			}
		}
		if sb.Len() > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name + pos)
	}
	return sb.String()
}

// ---- path condition ----

func (st *State) addPC(c *Expr, implied bool) {
	d := 0
	if st.pc != nil {
		d = st.pc.depth
	}
	if !implied {
		d++
	}
	st.pc = &PC{st.pc, c, implied, d}
	if !implied {
		st.narrow(c)
	} else if _, un := c.unary(); un {
		st.narrow(c)
	}
}

// also records that raw, of which c is a simplified form, holds (or not): an
// instruction executed again after a fork must find its conditions decided.
func (st *State) also(raw, c *Expr, v bool) {
	if raw == c {
		return
	}
	if !v {
		raw = st.w.x.Not(raw)
	}
	st.addPC(raw, true)
}

func (st *State) known(c *Expr) (val, ok bool) {
	if c.op == OBNot {
		v, ok := st.known(c.a)
		return !v, ok
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.cond == c {
			return true, true
		}
		if p.cond.op == OBNot && p.cond.a == c {
			return false, true
		}
	}
	return false, false
}

// decide resolves a symbolic condition, forking when both outcomes are feasible.
func (st *State) decide(c *Expr) bool {
	if c.op == OConst {
		return c.c == 1
	}
	if v, ok := st.known(c); ok {
		return v
	}
	x := st.w.x
	raw := c
	if c = st.simp(c); c.op == OConst {
		st.domDecided(raw, c.c == 1)
		return c.c == 1
	}
	if st.rp < len(st.replay) {
		d := st.replay[st.rp]
		st.rp++
		st.trace = append(st.trace, d)
		v := d&1 == 1
		cc := c
		if !v {
			cc = x.Not(c)
		}
		st.addPC(cc, d&2 != 0)
		st.also(raw, c, v)
		if d&2 == 0 {
			st.models = st.filter(cc)
		}
		return v
	}
	st.ensureModel()
	var mt, mf []Model
	for _, m := range st.models {
		if x.Eval(c, m) == 1 {
			mt = append(mt, m)
		} else {
			mf = append(mf, m)
		}
	}
	nc := x.Not(c)
	if len(mt) == 0 || len(mf) == 0 {
		if a, b, ok := st.free(c); ok {
			st.w.res.DomDecided++
			if len(mt) == 0 {
				mt = append(mt, a)
			} else {
				mf = append(mf, b)
			}
		}
	}
	if len(mt) == 0 || len(mf) == 0 {
		other := c
		if len(mf) == 0 {
			other = nc
		}
		r, m := st.w.solver.Check(st.pc, other, st.nvars)
		switch r {
		case SatYes:
			if len(mt) == 0 {
				mt = append(mt, m)
			} else {
				mf = append(mf, m)
			}
		case Unknown:
			st.w.res.Unknown++
			fallthrough
		case Unsat:
			v := len(mt) > 0
			d := byte(2)
			if v {
				d = 3
				st.addPC(c, true)
			} else {
				st.addPC(nc, true)
			}
			st.also(raw, c, v)
			st.trace = append(st.trace, d)
			return v
		}
	}
	// fork
	st.w.res.Forks++
	o := st.clone()
	o.trace = append(o.trace, 0)
	o.addPC(nc, false)
	o.also(raw, c, false)
	o.models = mf
	st.w.push(o)
	st.trace = append(st.trace, 1)
	st.addPC(c, false)
	st.also(raw, c, true)
	st.models = mt
	return true
}

func (st *State) filter(c *Expr) []Model {
	var r []Model
	for _, m := range st.models {
		if st.w.x.Eval(c, m) == 1 {
			r = append(r, m)
		}
	}
	return r
}

func (st *State) ensureModel() {
	if len(st.models) > 4 {
		st.models = st.models[len(st.models)-4:]
	}
	if len(st.models) > 0 {
		return
	}
	if st.pc == nil {
		st.models = []Model{{}}
		return
	}
	r, m := st.w.solver.Check(st.pc, nil, st.nvars)
	if r != SatYes {
		st.end(endError, "path condition not satisfiable (%v)", r)
	}
	st.models = []Model{m}
}

// forkN explores all n alternatives.
func (st *State) forkN(n int) int {
	if n <= 1 {
		return 0
	}
	c := 0
	switch {
	case st.pending >= 0:
		c = st.pending
		st.pending = -1
	case st.rp < len(st.replay):
		c = int(st.replay[st.rp])
		st.rp++
	default:
		st.w.res.Forks += int64(n - 1)
		for i := n - 1; i >= 1; i-- {
			o := st.clone()
			o.pending = i
			st.w.push(o)
		}
	}
	st.trace = append(st.trace, byte(c))
	return c
}

func (st *State) assume(c *Expr) {
	if c.op == OConst {
		if c.c == 0 {
			st.end(endAssume, "")
		}
		return
	}
	if v, ok := st.known(c); ok {
		if !v {
			st.end(endAssume, "")
		}
		return
	}
	if c = st.simp(c); c.op == OConst {
		if c.c == 0 {
			st.end(endAssume, "")
		}
		return
	}
	ms := st.filter(c)
	if len(ms) == 0 && st.rp >= len(st.replay) {
		r, m := st.w.solver.Check(st.pc, c, st.nvars)
		if r == Unsat {
			st.end(endAssume, "")
		}
		if r == Unknown {
			st.w.res.Unknown++
			st.end(endAssume, "")
		}
		ms = []Model{m}
	}
	st.addPC(c, false)
	st.models = ms
}

// assert checks that c holds on every completion of the path condition.
func (st *State) assert(c *Expr, msg string) {
	st.w.res.Asserts++
	if c.op == OConst {
		if c.c == 0 {
			st.ensureModel()
			st.violate(msg, st.models[0])
		}
		return
	}
	if v, ok := st.known(c); ok && v {
		return
	}
	x := st.w.x
	raw := c
	if c = st.simp(c); c.op == OConst {
		st.domDecided(raw, c.c == 1)
		if c.c == 0 {
			st.ensureModel()
			st.violate(msg, st.models[0])
		}
		return
	}
	if st.rp < len(st.replay) {
		// discharged by the worker that produced this prefix
		st.addPC(c, true)
		return
	}
	st.ensureModel()
	for _, m := range st.models {
		if x.Eval(c, m) == 0 {
			st.violate(msg, m)
		}
	}
	st.w.res.AssertQ++
	r, m := st.w.solver.Check(st.pc, x.Not(c), st.nvars)
	switch r {
	case SatYes:
		st.violate(msg, m)
	case Unknown:
		st.w.res.Unknown++
	}
	st.addPC(c, true)
}

func (st *State) violate(msg string, m Model) {
	st.models = []Model{m}
	st.end(endViolation, "%s", msg)
}

// concretize picks a concrete value for e, forking over all feasible ones.
func (st *State) concretize(e *Expr) uint64 {
	if e.isC() {
		return e.c
	}
	x := st.w.x
	// a value fixed by the path condition is reused on re-execution
	for p := st.pc; p != nil; p = p.parent {
		if p.cond.op == OEq && p.cond.b.isC() {
			if p.cond.a == e {
				return p.cond.b.c
			}
		}
	}
	if st.rp < len(st.replay) {
		// replay: values are tried in increasing order of the recorded byte pair
		return st.concretizeOrdered(e)
	}
	_ = x
	return st.concretizeOrdered(e)
}

// concretizeOrdered splits the range by binary decisions so that replays are
// independent of solver models.
func (st *State) concretizeOrdered(e *Expr) uint64 {
	x := st.w.x
	lo, hi := uint64(0), mask(e.w)
	if e.op == OZext {
		hi = mask(e.a.w)
	}
	for lo < hi {
		mid := lo + (hi-lo)/2
		if st.decide(x.Ule(e, x.Const(e.w, mid))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

// ---- heap ----

func (st *State) alloc(slots []Value) int32 {
	id := int32(len(st.heap))
	o := &Obj{tok: st.tok, slots: slots}
	if st.mt {
		o.born = int32(st.cur)
	}
	st.heap = append(st.heap, o)
	return id
}

func (st *State) obj(id int32) *Obj {
	o := st.heap[id]
	if o == nil {
		if id > 0 && int(id) <= len(st.w.prog.gobjs) {
			g := st.w.prog.gobjs[id-1]
			t := g.Type().Underlying().(*types.Pointer).Elem()
			o = &Obj{tok: st.tok, slots: append([]Value(nil), st.w.prog.zeroSlots(t)...)}
			st.heap[id] = o
			return o
		}
		st.unsup("bad object %d", id)
	}
	return o
}

func (st *State) wobj(id int32) *Obj {
	o := st.obj(id)
	if o.tok != st.tok {
		n := *o
		n.tok = st.tok
		n.slots = append([]Value(nil), o.slots...)
		if o.sh != nil {
			n.sh = append([]shadow(nil), o.sh...)
		}
		if o.mp != nil {
			m := &MapData{ents: append([]mapEntry(nil), o.mp.ents...), idx: make(map[mapKey]int, len(o.mp.idx)), n: o.mp.n}
			for k, v := range o.mp.idx {
				m.idx[k] = v
			}
			n.mp = m
		}
		if o.ch != nil {
			c := *o.ch
			c.buf = append([]Value(nil), c.buf...)
			c.bufvc = append([]VC(nil), c.bufvc...)
			n.ch = &c
		}
		st.heap[id] = &n
		o = &n
	}
	return o
}

func (st *State) loadSlots(p Ptr, n int32) []Value {
	o := st.obj(p.obj)
	if st.mt {
		for i := int32(0); i < n; i++ {
			st.raceRead(p.obj, p.off+i, false)
		}
	}
	return o.slots[p.off : p.off+n]
}

func (st *State) storeSlots(p Ptr, v []Value) {
	if st.mt {
		for i := range v {
			st.raceWrite(p.obj, p.off+int32(i), false)
		}
	}
	if len(v) == 0 {
		return
	}
	o := st.wobj(p.obj)
	copy(o.slots[p.off:], v)
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case ChanRef:
		y, ok := b.(ChanRef)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.s) != len(y.s) {
			return false
		}
		for i := range x.s {
			if !sameVal(x.s[i], y.s[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// resolve turns a symbolic pointer into a set of representatives: it forks over
// groups of indices whose n slots hold equal values and returns one of them.
func (st *State) resolveLoad(p SymPtr, n int32) Ptr {
	x := st.w.x
	o := st.obj(p.obj)
	type group struct {
		rep int32
		idx []int32
	}
	var gs []group
	at := func(i int32) []Value {
		s := p.base + i*p.es + p.fo
		return o.slots[s : s+n]
	}
next:
	for i := int32(0); i < p.n; i++ {
		v := at(i)
		for g := range gs {
			r := at(gs[g].rep)
			same := true
			for k := range v {
				if !sameVal(v[k], r[k]) {
					same = false
					break
				}
			}
			if same {
				gs[g].idx = append(gs[g].idx, i)
				continue next
			}
		}
		gs = append(gs, group{i, []int32{i}})
	}
	// the largest group last: its condition is the complement of the others
	big := 0
	for g := range gs {
		if len(gs[g].idx) > len(gs[big].idx) {
			big = g
		}
	}
	gs[big], gs[len(gs)-1] = gs[len(gs)-1], gs[big]
	for g := 0; g < len(gs)-1; g++ {
		c := x.False
		for _, i := range gs[g].idx {
			c = x.Or(c, x.Eq(p.idx, x.Const(p.idx.w, uint64(i))))
		}
		if st.decide(c) {
			return Ptr{p.obj, p.base + gs[g].rep*p.es + p.fo}
		}
	}
	return Ptr{p.obj, p.base + gs[len(gs)-1].rep*p.es + p.fo}
}

func (st *State) resolveExact(p SymPtr) Ptr {
	i := st.concretize(p.idx)
	return Ptr{p.obj, p.base + int32(i)*p.es + p.fo}
}

func (st *State) exactPtr(v Value) (Ptr, bool) {
	st.w.res.Implicit++
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference")
			return p, false
		}
		return p, true
	case SymPtr:
		return st.resolveExact(p), true
	}
	st.unsup("pointer %T", v)
	return Ptr{}, false
}

// ---- interpreter ----

func (f *Frame) get(o *Opnd) Value {
	if o.reg >= 0 {
		return f.regs[o.reg]
	}
	return o.k
}

func (st *State) jump(f *Frame, succ int) {
	prev := f.blk.idx
	nb := f.fn.blocks[f.blk.succ[succ]]
	if len(nb.phis) > 0 {
		e := -1
		// a block can be the predecessor twice; both edges then carry a value per position
		cnt := 0
		for k := 0; k < succ; k++ {
			if f.blk.succ[k] == nb.idx {
				cnt++
			}
		}
		for i, pr := range nb.preds {
			if pr == prev {
				if cnt == 0 {
					e = i
					break
				}
				cnt--
			}
		}
		var tmp [16]Value
		vals := tmp[:0]
		for i := range nb.phis {
			vals = append(vals, f.get(&nb.phis[i].edges[e]))
		}
		for i := range nb.phis {
			f.regs[nb.phis[i].dst] = vals[i]
		}
	}
	f.blk = nb
	f.ip = 0
}

// maxFrames is the call depth taken for endless recursion.
const maxFrames = 200000

func (st *State) pushCall(fn *Fn, args, free []Value, dst int32) *Frame {
	p := st.w.prog
	p.ensure(fn)
	if len(fn.blocks) == 0 {
		st.unsup("call of body-less function %s", fn.name)
	}
	if fn.repo && !fn.entered {
		fn.entered = true
		st.w.entered[fn.name] = true
	}
	if len(st.threads[st.cur].frames) > maxFrames {
		st.end(endLimit, "call depth at %s", st.where())
	}
	f := &Frame{fn: fn, regs: make([]Value, fn.nregs), blk: fn.blocks[0], dst: dst}
	copy(f.regs, args)
	copy(f.regs[fn.params:], free)
	t := st.threads[st.cur]
	if len(t.frames) > 400 {
		st.end(endViolation, "call depth exceeds 400 (unbounded recursion?) at %s", st.where())
	}
	t.frames = append(t.frames, f)
	return f
}

// call performs a call of fn from the top frame. The instruction pointer has
// not been advanced yet.
func (st *State) call(f *Frame, I *Instr, fn *Fn, args, free []Value) {
	if fn.intr != nil {
		depth := len(st.threads[st.cur].frames)
		cur := st.cur
		v := fn.intr(st, I, args)
		if v == redo {
			return
		}
		if st.cur != cur || len(st.threads[st.cur].frames) < depth || st.threads[st.cur].panic != nil {
			return
		}
		if I.dst >= 0 {
			f.regs[I.dst] = v
		}
		f.ip++
		return
	}
	f.ip++
	st.pushCall(fn, args, free, I.dst)
}

type redoT struct{}

// redo tells the interpreter that the intrinsic has arranged control flow itself.
var redo Value = redoT{}

func (st *State) run() {
	for {
		t := st.threads[st.cur]
		if len(t.frames) == 0 {
			t.done = true
			if st.cur == 0 {
				st.end(endOK, "")
			}
			st.schedule()
			continue
		}
		st.steps++
		if st.steps&1023 == 0 {
			st.w.poll(st)
		}
		if st.steps > st.w.maxSteps {
			st.end(endLimit, "instruction limit at %s", st.where())
		}
		st.step(t, t.top())
	}
}

func (st *State) ret(t *Thread, f *Frame, v Value) {
	t.frames = t.frames[:len(t.frames)-1]
	if len(t.frames) == 0 {
		return
	}
	c := t.top()
	if f.isDefer {
		if c.unwinding {
			st.continueUnwind(t)
		}
		return
	}
	if f.dst >= 0 && !f.discard {
		c.regs[f.dst] = v
	}
}

func (st *State) goPanic(msg string) {
	st.throwGo(&panicRec{msg: msg, val: Iface{t: st.w.prog.canon(types.Typ[types.String]), v: st.w.prog.strConst(msg)}, site: st.where()})
}

func (st *State) throwGo(p *panicRec) {
	t := st.threads[st.cur]
	t.panic = p
	st.continueUnwind(t)
}

func (st *State) continueUnwind(t *Thread) {
	for {
		if len(t.frames) == 0 {
			st.end(endViolation, "panic: %s [%s]", t.panic.msg, t.panic.site)
		}
		f := t.top()
		if f.unwinding && f.recovered {
			// resume after recover
			f.unwinding, f.recovered = false, false
			t.panic = nil
			if f.fn.recov >= 0 {
				f.blk = f.fn.blocks[f.fn.recov]
				f.ip = 0
				return
			}
			var v Value
			if f.fn.res.Len() == 1 {
				v = st.w.prog.zero(f.fn.res.At(0).Type())
			} else if f.fn.res.Len() > 1 {
				v = st.w.prog.zero(f.fn.res)
			}
			st.ret(t, f, v)
			return
		}
		f.unwinding = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			st.runDeferred(t, d)
			return
		}
		t.frames = t.frames[:len(t.frames)-1]
	}
}

func (st *State) runDeferred(t *Thread, d deferred) {
	if d.fn == nil {
		st.builtinStmt(d.bi, d.args)
		if t.top().unwinding {
			st.continueUnwind(t)
		}
		return
	}
	if d.fn.fn != nil && d.fn.fn.intr != nil {
		I := &Instr{dst: -1}
		t.granted = true // no preemption point right before a deferred unlock
		d.fn.fn.intr(st, I, d.args)
		if t.top().unwinding {
			st.continueUnwind(t)
		}
		return
	}
	f := st.pushCall(d.fn.fn, d.args, d.fn.free, -1)
	f.isDefer = true
}

func (st *State) builtinStmt(name string, args []Value) {
	switch name {
	case "close":
		st.chanClose(args[0].(ChanRef))
	case "delete":
		st.mapDelete(args[0].(MapRef), args[1])
	case "print", "println":
	case "panic":
		st.goPanic("panic")
	case "recover":
		st.doRecover()
	default:
		st.unsup("deferred builtin %s", name)
	}
}

func (st *State) doRecover() Value {
	t := st.threads[st.cur]
	n := len(t.frames)
	if n >= 2 && t.panic != nil && t.frames[n-1].isDefer && t.frames[n-2].unwinding && !t.frames[n-2].recovered {
		t.frames[n-2].recovered = true
		v := t.panic.val
		return v
	}
	return Iface{}
}

func (st *State) step(t *Thread, f *Frame) {
	I := &f.blk.ins[f.ip]
	x := st.w.x
	p := st.w.prog
	switch I.op {
	case iBin:
		v, ok := st.binop(I, f.get(&I.x), f.get(&I.y))
		if !ok {
			return
		}
		f.regs[I.dst] = v
	case iAlloc:
		id := st.alloc(append([]Value(nil), p.zeroSlots(I.t)...))
		f.regs[I.dst] = Ptr{id, 0}
	case iLoad:
		var q Ptr
		st.w.res.Implicit++
		switch a := f.get(&I.x).(type) {
		case Ptr:
			if a.obj == 0 {
				st.goPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			}
			q = a
		case SymPtr:
			if st.mt {
				q = st.resolveExact(a)
			} else {
				q = st.resolveLoad(a, I.n)
			}
		default:
			st.unsup("load through %T", a)
		}
		s := st.loadSlots(q, I.n)
		if I.m == 1 {
			f.regs[I.dst] = &Agg{append([]Value(nil), s...)}
		} else {
			f.regs[I.dst] = s[0]
		}
	case iStore:
		q, ok := st.exactPtr(f.get(&I.x))
		if !ok {
			return
		}
		v := f.get(&I.y)
		if I.m == 1 {
			st.storeSlots(q, v.(*Agg).s)
		} else {
			if u, bad := v.(unsupportedVal); bad {
				st.unsup("%s", string(u))
			}
			if st.mt {
				st.raceWrite(q.obj, q.off, false)
			}
			st.wobj(q.obj).slots[q.off] = v
		}
	case iNeg:
		switch v := f.get(&I.x).(type) {
		case *Expr:
			f.regs[I.dst] = x.Bin(OSub, x.Const(v.w, 0), v)
		case float64:
			f.regs[I.dst] = -v
		}
	case iNot:
		f.regs[I.dst] = x.Not(f.get(&I.x).(*Expr))
	case iCompl:
		v := f.get(&I.x).(*Expr)
		f.regs[I.dst] = x.Bin(OXor, v, x.Const(v.w, ^uint64(0)))
	case iMove:
		f.regs[I.dst] = f.get(&I.x)
	case iConvert:
		f.regs[I.dst] = st.convert(I, f.get(&I.x))
	case iExtract:
		f.regs[I.dst] = f.get(&I.x).(Tuple)[I.n]
	case iField:
		s := f.get(&I.x).(*Agg).s
		if I.m == 1 {
			f.regs[I.dst] = &Agg{s[I.n : I.n+I.o]}
		} else {
			f.regs[I.dst] = s[I.n]
		}
	case iFieldAddr:
		switch q := f.get(&I.x).(type) {
		case Ptr:
			if q.obj == 0 {
				st.goPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			}
			q.off += I.n
			f.regs[I.dst] = q
		case SymPtr:
			q.fo += I.n
			f.regs[I.dst] = q
		default:
			st.unsup("fieldaddr of %T", q)
		}
	case iIf:
		if st.decide(f.get(&I.x).(*Expr)) {
			st.jump(f, 0)
		} else {
			st.jump(f, 1)
		}
		return
	case iJump:
		st.jump(f, 0)
		return
	case iIndex:
		idx := f.get(&I.y).(*Expr)
		switch a := f.get(&I.x).(type) {
		case *Agg:
			n := int32(0)
			if I.n > 0 {
				n = int32(len(a.s)) / I.n
			}
			i, ok := st.boundIdx(idx, n, I.sg)
			if !ok {
				return
			}
			if !i.isC() {
				i = x.Const(64, st.concretize(i))
			}
			s := a.s[int32(i.c)*I.n : int32(i.c+1)*I.n]
			if I.m == 1 {
				f.regs[I.dst] = &Agg{s}
			} else {
				f.regs[I.dst] = s[0]
			}
		case *Str:
			v, ok := st.strIndex(a, idx, I.sg)
			if !ok {
				return
			}
			f.regs[I.dst] = v
		default:
			st.unsup("index of %T", a)
		}
	case iIndexAddr:
		idx := f.get(&I.y).(*Expr)
		var obj, base, n int32
		switch a := f.get(&I.x).(type) {
		case Slice:
			obj, base, n = a.obj, a.off, a.len
		case Ptr:
			if a.obj == 0 {
				st.goPanic("runtime error: invalid memory address or nil pointer dereference")
				return
			}
			obj, base, n = a.obj, a.off, I.m-1
		case SymPtr:
			q := st.resolveExact(a)
			obj, base, n = q.obj, q.off, I.m-1
		default:
			st.unsup("indexaddr of %T", a)
		}
		i, ok := st.boundIdx(idx, n, I.sg)
		if !ok {
			return
		}
		if i.isC() {
			f.regs[I.dst] = Ptr{obj, base + int32(i.c)*I.n}
		} else {
			f.regs[I.dst] = SymPtr{obj, base, I.n, n, 0, i}
		}
	case iLookup:
		switch a := f.get(&I.x).(type) {
		case *Str:
			v, ok := st.strIndex(a, f.get(&I.y).(*Expr), I.sg)
			if !ok {
				return
			}
			f.regs[I.dst] = v
		case MapRef:
			mt := I.t.Underlying().(*types.Map)
			v, ok := st.mapLookup(a, f.get(&I.y))
			if !ok {
				v = p.zero(mt.Elem())
			}
			if I.m == 1 {
				f.regs[I.dst] = Tuple{v, x.Bool(ok)}
			} else {
				f.regs[I.dst] = v
			}
		default:
			st.unsup("lookup in %T", a)
		}
	case iMakeClosure:
		c := &Closure{fn: I.fn, free: make([]Value, len(I.args))}
		for i := range I.args {
			c.free[i] = f.get(&I.args[i])
		}
		f.regs[I.dst] = c
	case iMakeIface:
		f.regs[I.dst] = Iface{I.t, f.get(&I.x)}
	case iMakeMap:
		id := st.alloc(nil)
		st.heap[id].mp = &MapData{idx: map[mapKey]int{}}
		f.regs[I.dst] = MapRef{id}
	case iMakeChan:
		n := st.concretize(f.get(&I.x).(*Expr))
		id := st.alloc(nil)
		st.heap[id].ch = &ChanData{cap: int(n), zero: p.zero(I.t)}
		f.regs[I.dst] = ChanRef{id}
	case iMakeSlice:
		ln, cp := f.get(&I.x).(*Expr), f.get(&I.y).(*Expr)
		l := sx(st.concretize(ln), ln.w)
		c := sx(st.concretize(cp), cp.w)
		if l < 0 || l > 1<<24 {
			st.goPanic("runtime error: makeslice: len out of range")
			return
		}
		if c < l || c > 1<<24 {
			st.goPanic("runtime error: makeslice: cap out of range")
			return
		}
		f.regs[I.dst] = st.makeSlice(I.t, int32(l), int32(c))
	case iMapUpdate:
		m := f.get(&I.x).(MapRef)
		if m.obj == 0 {
			st.goPanic("assignment to entry in nil map")
			return
		}
		st.mapSet(m, f.get(&I.y), f.get(&I.z))
	case iRange:
		switch a := f.get(&I.x).(type) {
		case *Str:
			f.regs[I.dst] = Ptr{st.alloc([]Value{&RangeIter{str: a}}), 0}
		case MapRef:
			f.regs[I.dst] = Ptr{st.alloc([]Value{&RangeIter{m: a.obj}}), 0}
		default:
			st.unsup("range over %T", a)
		}
	case iNext:
		q := f.get(&I.x).(Ptr)
		it := *st.obj(q.obj).slots[0].(*RangeIter)
		tp := I.t.(*types.Tuple)
		if it.str != nil {
			if it.i >= len(it.str.b) {
				f.regs[I.dst] = Tuple{x.False, x.Const(64, 0), x.Const(32, 0)}
			} else {
				b := it.str.b[it.i]
				if st.decide(x.Ult(b, x.Const(8, 0x80))) {
					f.regs[I.dst] = Tuple{x.True, x.Const(64, uint64(it.i)), x.Zext(b, 32)}
				} else {
					st.unsup("range over non-ASCII string")
				}
			}
			it.i++
		} else {
			zk, zv := Value(nil), Value(nil)
			if t := tp.At(1).Type(); t != types.Typ[types.Invalid] {
				zk = p.zero(t)
			}
			if t := tp.At(2).Type(); t != types.Typ[types.Invalid] {
				zv = p.zero(t)
			}
			r := Tuple{x.False, zk, zv}
			if it.m != 0 {
				if st.mt {
					st.raceRead(it.m, 0, false)
				}
				m := st.obj(it.m).mp
				for it.i < len(m.ents) && m.ents[it.i].k == nil {
					it.i++
				}
				if it.i < len(m.ents) {
					r = Tuple{x.True, m.ents[it.i].k, m.ents[it.i].v}
					it.i++
				}
			}
			f.regs[I.dst] = r
		}
		st.wobj(q.obj).slots[0] = &it
	case iSlice:
		v, ok := st.slice(I, f)
		if !ok {
			return
		}
		f.regs[I.dst] = v
	case iSliceToArr:
		s := f.get(&I.x).(Slice)
		if s.len < I.n {
			st.goPanic("runtime error: cannot convert slice to array pointer")
			return
		}
		f.regs[I.dst] = Ptr{s.obj, s.off}
	case iTypeAssert:
		a, isI := f.get(&I.x).(Iface)
		if !isI {
			st.unsup("type assert on %T", f.get(&I.x))
		}
		ok := false
		if a.t != nil {
			if I.n == 1 {
				ok = p.implements(a.t, I.t)
			} else {
				ok = a.t == I.t
			}
		}
		var v Value
		switch {
		case ok && I.n == 1:
			v = a
		case ok:
			v = a.v
		case I.m == 1:
			v = p.zero(I.t)
		default:
			st.goPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", a.t, I.t))
			return
		}
		if I.m == 1 {
			f.regs[I.dst] = Tuple{v, x.Bool(ok)}
		} else {
			f.regs[I.dst] = v
		}
	case iCall:
		args := make([]Value, len(I.args))
		for i := range I.args {
			args[i] = f.get(&I.args[i])
		}
		if I.fn != nil {
			st.call(f, I, I.fn, args, nil)
			return
		}
		c, _ := f.get(&I.x).(*Closure)
		if c == nil {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
			return
		}
		if c.native != nil {
			v := c.native(st, args)
			if I.dst >= 0 {
				f.regs[I.dst] = v
			}
			f.ip++
			return
		}
		st.call(f, I, c.fn, args, c.free)
		return
	case iInvoke:
		fn, args, ok := st.invokeTarget(f, I)
		if !ok {
			return
		}
		st.call(f, I, fn, args, nil)
		return
	case iBuiltin:
		v, ok := st.builtin(I, f)
		if !ok {
			return
		}
		if I.dst >= 0 {
			f.regs[I.dst] = v
		}
	case iDefer:
		d := deferred{}
		switch uint8(I.m) {
		case iInvoke:
			fn, args, ok := st.invokeTarget(f, I)
			if !ok {
				return
			}
			d.fn, d.args = &Closure{fn: fn}, args
		case iBuiltin:
			d.bi = I.aux.(string)
			for i := range I.args {
				d.args = append(d.args, f.get(&I.args[i]))
			}
		default:
			for i := range I.args {
				d.args = append(d.args, f.get(&I.args[i]))
			}
			if I.fn != nil {
				d.fn = &Closure{fn: I.fn}
			} else {
				d.fn, _ = f.get(&I.x).(*Closure)
			}
		}
		f.defers = append(f.defers, d)
	case iRunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			st.runDeferred(t, d)
			return
		}
	case iGo:
		var fn *Fn
		var args, free []Value
		switch uint8(I.m) {
		case iInvoke:
			var ok bool
			fn, args, ok = st.invokeTarget(f, I)
			if !ok {
				return
			}
		case iBuiltin:
			st.unsup("go builtin")
		default:
			for i := range I.args {
				args = append(args, f.get(&I.args[i]))
			}
			if I.fn != nil {
				fn = I.fn
			} else {
				c := f.get(&I.x).(*Closure)
				fn, free = c.fn, c.free
			}
		}
		f.ip++
		st.spawn(fn, args, free)
		return
	case iReturn:
		var v Value
		switch len(I.args) {
		case 0:
		case 1:
			v = f.get(&I.args[0])
		default:
			r := make(Tuple, len(I.args))
			for i := range I.args {
				r[i] = f.get(&I.args[i])
			}
			v = r
		}
		st.ret(t, f, v)
		return
	case iPanic:
		v, _ := f.get(&I.x).(Iface)
		msg := "explicit panic"
		if v.t != nil {
			msg = "explicit panic of type " + v.t.String()
			if s, ok := v.v.(*Str); ok {
				msg = st.strText(s)
			}
		}
		st.throwGo(&panicRec{val: v, msg: msg, site: st.where()})
		return
	case iSend:
		st.visible(chanFP(f.get(&I.x)), func() bool {
			ok := st.chanSend(f.get(&I.x).(ChanRef), f.get(&I.y))
			if ok && st.threads[st.cur].panic == nil {
				f.ip++
			}
			return ok
		})
		return
	case iRecv:
		st.visible(chanFP(f.get(&I.x)), func() bool {
			v, ok2, ok := st.chanRecv(f.get(&I.x).(ChanRef))
			if !ok {
				return false
			}
			if I.m == 1 {
				f.regs[I.dst] = Tuple{v, x.Bool(ok2)}
			} else {
				f.regs[I.dst] = v
			}
			f.ip++
			return true
		})
		return
	case iSelect:
		var fp []access
		for i := range selectOf(I).States {
			fp = append(fp, chanFP(f.get(&I.args[2*i]))...)
		}
		st.visible(fp, func() bool { return st.doSelect(I, f) })
		return
	default:
		st.unsup("instruction %T %v", I.in, I.in)
	}
	f.ip++
}

func (st *State) strText(s *Str) string {
	st.ensureModel()
	var b []byte
	for _, e := range s.b {
		b = append(b, byte(st.w.x.Eval(e, st.models[0])))
	}
	return string(b)
}

func (st *State) invokeTarget(f *Frame, I *Instr) (*Fn, []Value, bool) {
	r, ok := f.get(&I.x).(Iface)
	if !ok {
		st.unsup("invoke on %T", f.get(&I.x))
	}
	st.w.res.Implicit++
	if r.t == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference (nil interface)")
		return nil, nil, false
	}
	fn := st.w.prog.method(r.t, I.aux.(*types.Func))
	if fn == nil {
		st.unsup("no method %v on %v", I.aux, r.t)
	}
	args := make([]Value, len(I.args)+1)
	args[0] = r.v
	for i := range I.args {
		args[i+1] = f.get(&I.args[i])
	}
	return fn, args, true
}

// boundIdx checks 0 <= idx < n and returns the index as a 64-bit term.
func (st *State) boundIdx(idx *Expr, n int32, signed bool) (*Expr, bool) {
	x := st.w.x
	st.w.res.Implicit++
	if signed {
		idx = x.Sext(idx, 64)
	} else {
		idx = x.Zext(idx, 64)
	}
	if idx.isC() {
		if idx.c >= uint64(n) {
			st.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.c), n))
			return nil, false
		}
		return idx, true
	}
	if !st.decide(x.Ult(idx, x.Const(64, uint64(n)))) {
		st.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		return nil, false
	}
	return idx, true
}

func (st *State) strIndex(s *Str, idx *Expr, signed bool) (Value, bool) {
	i, ok := st.boundIdx(idx, int32(len(s.b)), signed)
	if !ok {
		return nil, false
	}
	if i.isC() {
		return s.b[i.c], true
	}
	x := st.w.x
	r := s.b[0]
	for k := 1; k < len(s.b); k++ {
		r = x.Ite(x.Eq(i, x.Const(64, uint64(k))), s.b[k], r)
	}
	return r, true
}

func (st *State) makeSlice(elem types.Type, l, c int32) Slice {
	z := st.w.prog.zeroSlots(elem)
	s := make([]Value, 0, int(c)*len(z))
	for i := int32(0); i < c; i++ {
		s = append(s, z...)
	}
	return Slice{st.alloc(s), 0, l, c}
}

func (st *State) intArg(o *Opnd, f *Frame) (int64, bool) {
	v := f.get(o)
	if v == nil {
		return 0, false
	}
	e := v.(*Expr)
	return sx(st.concretize(e), e.w), true
}

func (st *State) slice(I *Instr, f *Frame) (Value, bool) {
	bad := func(f string, a ...any) (Value, bool) {
		st.goPanic("runtime error: slice bounds out of range " + fmt.Sprintf(f, a...))
		return nil, false
	}
	st.w.res.Implicit++
	lo, _ := st.intArg(&I.args[0], f)
	hi, hasHi := st.intArg(&I.args[1], f)
	mx, hasMx := st.intArg(&I.args[2], f)
	switch a := f.get(&I.x).(type) {
	case *Str:
		if !hasHi {
			hi = int64(len(a.b))
		}
		if hi < 0 || hi > int64(len(a.b)) {
			return bad("[:%d] with length %d", hi, len(a.b))
		}
		if lo < 0 || lo > hi {
			return bad("[%d:%d]", lo, hi)
		}
		return &Str{a.b[lo:hi]}, true
	case Slice:
		if !hasHi {
			hi = int64(a.len)
		}
		if !hasMx {
			mx = int64(a.cap)
		}
		if mx < 0 || mx > int64(a.cap) {
			return bad("[::%d] with capacity %d", mx, a.cap)
		}
		if hi < 0 || hi > mx {
			return bad("[:%d] with capacity %d", hi, mx)
		}
		if lo < 0 || lo > hi {
			return bad("[%d:%d]", lo, hi)
		}
		return Slice{a.obj, a.off + int32(lo)*I.n, int32(hi - lo), int32(mx - lo)}, true
	case Ptr, SymPtr:
		q, ok := st.exactPtr(a)
		if !ok {
			return nil, false
		}
		n := int64(I.m - 1)
		if !hasHi {
			hi = n
		}
		if !hasMx {
			mx = n
		}
		if mx < 0 || mx > n {
			return bad("[::%d] with length %d", mx, n)
		}
		if hi < 0 || hi > mx {
			return bad("[:%d] with capacity %d", hi, mx)
		}
		if lo < 0 || lo > hi {
			return bad("[%d:%d]", lo, hi)
		}
		return Slice{q.obj, q.off + int32(lo)*I.n, int32(hi - lo), int32(mx - lo)}, true
	}
	st.unsup("slice of %T", f.get(&I.x))
	return nil, false
}

// ---- operators ----

func (st *State) strEq(a, b []*Expr) *Expr {
	x := st.w.x
	if len(a) != len(b) {
		return x.False
	}
	r := x.True
	for i := len(a) - 1; i >= 0; i-- {
		r = x.And(x.Eq(a[i], b[i]), r)
	}
	return r
}

func (st *State) strLess(a, b []*Expr) *Expr {
	x := st.w.x
	n := min(len(a), len(b))
	r := x.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = x.Or(x.Ult(a[i], b[i]), x.And(x.Eq(a[i], b[i]), r))
	}
	return r
}

// equal builds the term for a == b.
func (st *State) equal(a, b Value) *Expr {
	x := st.w.x
	switch v := a.(type) {
	case *Expr:
		return x.Eq(v, b.(*Expr))
	case float64:
		return x.Bool(v == b.(float64))
	case Ptr:
		switch u := b.(type) {
		case Ptr:
			return x.Bool(v == u)
		case SymPtr:
			return x.Bool(v == st.resolveExact(u))
		}
	case SymPtr:
		return st.equal(st.resolveExact(v), b)
	case *Str:
		return st.strEq(v.b, b.(*Str).b)
	case Slice:
		return x.Bool(v.obj == 0 && b.(Slice).obj == 0)
	case MapRef:
		return x.Bool(v == b.(MapRef))
	case ChanRef:
		return x.Bool(v == b.(ChanRef))
	case *Closure:
		c, _ := b.(*Closure)
		return x.Bool(v == nil && c == nil)
	case Iface:
		u, ok := b.(Iface)
		if !ok {
			st.unsup("iface compare with %T", b)
		}
		if v.t != u.t {
			return x.False
		}
		if v.t == nil {
			return x.True
		}
		return st.equal(v.v, u.v)
	case *Agg:
		u := b.(*Agg)
		r := x.True
		for i := range v.s {
			r = x.And(r, st.equal(v.s[i], u.s[i]))
		}
		return r
	}
	st.unsup("comparison of %T and %T", a, b)
	return nil
}

func (st *State) binop(I *Instr, a, b Value) (Value, bool) {
	x := st.w.x
	op := token_go(I.n)
	switch I.m {
	case 1:
		u, ok1 := a.(*Expr)
		v, ok2 := b.(*Expr)
		if !ok1 || !ok2 {
			st.unsup("binop %v on %T,%T", op, a, b)
		}
		switch op {
		case token.ADD:
			return x.Bin(OAdd, u, v), true
		case token.SUB:
			return x.Bin(OSub, u, v), true
		case token.MUL:
			return x.Bin(OMul, u, v), true
		case token.QUO, token.REM:
			if st.decide(x.Eq(v, x.Const(v.w, 0))) {
				st.goPanic("runtime error: integer divide by zero")
				return nil, false
			}
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if I.sg {
				o += 2
			}
			return x.Bin(o, u, v), true
		case token.AND:
			return x.Bin(OAnd, u, v), true
		case token.OR:
			return x.Bin(OOr, u, v), true
		case token.XOR:
			return x.Bin(OXor, u, v), true
		case token.AND_NOT:
			return x.Bin(OAnd, u, x.Bin(OXor, v, x.Const(v.w, ^uint64(0)))), true
		case token.EQL:
			return x.Eq(u, v), true
		case token.NEQ:
			return x.Not(x.Eq(u, v)), true
		case token.LSS:
			if I.sg {
				return x.Slt(u, v), true
			}
			return x.Ult(u, v), true
		case token.LEQ:
			if I.sg {
				return x.Sle(u, v), true
			}
			return x.Ule(u, v), true
		case token.GTR:
			if I.sg {
				return x.Slt(v, u), true
			}
			return x.Ult(v, u), true
		case token.GEQ:
			if I.sg {
				return x.Sle(v, u), true
			}
			return x.Ule(v, u), true
		}
	case 5:
		u, v := a.(*Expr), b.(*Expr)
		switch op {
		case token.EQL:
			return x.Eq(u, v), true
		case token.NEQ:
			return x.Not(x.Eq(u, v)), true
		case token.AND, token.LAND:
			return x.And(u, v), true
		case token.OR, token.LOR:
			return x.Or(u, v), true
		}
	case 2:
		u, v := a.(*Str), b.(*Str)
		switch op {
		case token.ADD:
			return &Str{append(append([]*Expr(nil), u.b...), v.b...)}, true
		case token.EQL:
			return st.strEq(u.b, v.b), true
		case token.NEQ:
			return x.Not(st.strEq(u.b, v.b)), true
		case token.LSS:
			return st.strLess(u.b, v.b), true
		case token.GTR:
			return st.strLess(v.b, u.b), true
		case token.LEQ:
			return x.Not(st.strLess(v.b, u.b)), true
		case token.GEQ:
			return x.Not(st.strLess(u.b, v.b)), true
		}
	case 3:
		u, v := a.(float64), b.(float64)
		switch op {
		case token.ADD:
			return u + v, true
		case token.SUB:
			return u - v, true
		case token.MUL:
			return u * v, true
		case token.QUO:
			return u / v, true
		case token.EQL:
			return x.Bool(u == v), true
		case token.NEQ:
			return x.Bool(u != v), true
		case token.LSS:
			return x.Bool(u < v), true
		case token.LEQ:
			return x.Bool(u <= v), true
		case token.GTR:
			return x.Bool(u > v), true
		case token.GEQ:
			return x.Bool(u >= v), true
		}
	case 4:
		u, v := a.(*Expr), b.(*Expr)
		if I.o == 1 && !v.isC() {
			if st.decide(x.Slt(v, x.Const(v.w, 0))) {
				st.goPanic("runtime error: negative shift amount")
				return nil, false
			}
		} else if I.o == 1 && sx(v.c, v.w) < 0 {
			st.goPanic("runtime error: negative shift amount")
			return nil, false
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if I.sg {
				o = OAshr
			}
		}
		if v.w > u.w {
			// shifts of at least the width saturate
			big := x.Not(x.Ult(v, x.Const(v.w, uint64(u.w))))
			if v.isC() {
				c := v.c
				if c > uint64(u.w) {
					c = uint64(u.w)
				}
				return x.Bin(o, u, x.Const(u.w, c)), true
			}
			sat := x.Const(u.w, uint64(u.w))
			return x.Bin(o, u, x.Ite(big, sat, x.Trunc(v, u.w))), true
		}
		return x.Bin(o, u, x.Zext(v, u.w)), true
	}
	switch op {
	case token.EQL:
		return st.equal(a, b), true
	case token.NEQ:
		return x.Not(st.equal(a, b)), true
	}
	st.unsup("binop %v on %T,%T", op, a, b)
	return nil, false
}

func token_go(n int32) token.Token { return token.Token(n) }

func (st *State) convert(I *Instr, v Value) Value {
	x := st.w.x
	switch I.m {
	case cvIdent:
		return v
	case cvInt:
		e := v.(*Expr)
		if I.w <= e.w {
			return x.Trunc(e, I.w)
		}
		if I.sg {
			return x.Sext(e, I.w)
		}
		return x.Zext(e, I.w)
	case cvIntFloat:
		e := v.(*Expr)
		c := st.concretize(e)
		var r float64
		if I.sg {
			r = float64(sx(c, e.w))
		} else {
			r = float64(c)
		}
		if I.n == 1 {
			r = float64(float32(r))
		}
		return r
	case cvFloatInt:
		return x.Const(I.w, uint64(int64(v.(float64))))
	case cvFloatFloat:
		if I.n == 1 {
			return float64(float32(v.(float64)))
		}
		return v
	case cvBytesStr:
		return &Str{st.bytesOf(v.(Slice))}
	case cvStrBytes:
		s := v.(*Str)
		return st.newBytes(s.b)
	case cvRuneStr:
		e := v.(*Expr)
		c := st.concretize(e)
		return st.w.prog.strConst(string(rune(c)))
	case cvRunesStr:
		var r []rune
		for _, e := range st.slotsOf(v.(Slice), 1) {
			r = append(r, rune(st.concretize(e.(*Expr))))
		}
		return st.w.prog.strConst(string(r))
	case cvStrRunes:
		s := v.(*Str)
		var sl []Value
		for _, b := range s.b {
			if !st.decide(x.Ult(b, x.Const(8, 0x80))) {
				st.unsup("[]rune of non-ASCII")
			}
			sl = append(sl, x.Zext(b, 32))
		}
		return Slice{st.alloc(sl), 0, int32(len(sl)), int32(len(sl))}
	case cvPtrUint:
		if p, ok := v.(Ptr); ok {
			if b, ok := I.t.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				return x.Const(64, uint64(p.obj)<<32|uint64(p.off)<<3)
			}
			return v
		}
		if e, ok := v.(*Expr); ok && e.isC() {
			return Ptr{int32(e.c >> 32), int32(e.c&0xffffffff) >> 3}
		}
	}
	st.unsup("conversion %v", I.in)
	return nil
}

func (st *State) slotsOf(s Slice, es int32) []Value {
	if s.len == 0 || s.obj == 0 {
		return nil
	}
	return st.loadSlots(Ptr{s.obj, s.off}, s.len*es)
}
func (st *State) bytesOf(s Slice) []*Expr {
	v := st.slotsOf(s, 1)
	r := make([]*Expr, len(v))
	for i := range v {
		r[i] = v[i].(*Expr)
	}
	return r
}
func (st *State) newBytes(b []*Expr) Slice {
	v := make([]Value, len(b))
	for i := range b {
		v[i] = b[i]
	}
	return Slice{st.alloc(v), 0, int32(len(b)), int32(len(b))}
}

// growCap mirrors the run-time's growth policy closely enough for aliasing:
// the exact size class does not matter to any property, spare capacity does.
func growCap(old, need int32) int32 {
	c := old * 2
	if old >= 256 {
		c = old + (old+3*256)/4
	}
	if c < need {
		c = need
	}
	if c < 8 {
		c = 8
	}
	return c
}

func (st *State) builtin(I *Instr, f *Frame) (Value, bool) {
	x := st.w.x
	name := I.aux.(string)
	arg := func(i int) Value { return f.get(&I.args[i]) }
	switch name {
	case "len", "cap":
		switch a := arg(0).(type) {
		case Slice:
			if name == "cap" {
				return x.Const(64, uint64(a.cap)), true
			}
			return x.Const(64, uint64(a.len)), true
		case *Str:
			return x.Const(64, uint64(len(a.b))), true
		case MapRef:
			if a.obj == 0 {
				return x.Const(64, 0), true
			}
			if st.mt {
				st.raceRead(a.obj, 0, false)
			}
			return x.Const(64, uint64(st.obj(a.obj).mp.n)), true
		case ChanRef:
			if a.obj == 0 {
				return x.Const(64, 0), true
			}
			c := st.obj(a.obj).ch
			if name == "cap" {
				return x.Const(64, uint64(c.cap)), true
			}
			return x.Const(64, uint64(len(c.buf))), true
		case *Agg:
			at := I.t.Underlying().(*types.Array)
			return x.Const(64, uint64(at.Len())), true
		case Ptr:
			at := I.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return x.Const(64, uint64(at.Len())), true
		}
	case "append":
		s := arg(0).(Slice)
		var add []Value
		es := I.n
		switch b := arg(1).(type) {
		case Slice:
			add = append([]Value(nil), st.slotsOf(b, es)...)
		case *Str:
			for _, e := range b.b {
				add = append(add, e)
			}
		}
		var n int32
		if es > 0 {
			n = int32(len(add)) / es
		} else if b, ok := arg(1).(Slice); ok {
			n = b.len
		}
		if n == 0 {
			return s, true
		}
		if s.len+n <= s.cap {
			st.storeSlots(Ptr{s.obj, s.off + s.len*es}, add)
			return Slice{s.obj, s.off, s.len + n, s.cap}, true
		}
		et := I.t.Underlying().(*types.Slice).Elem()
		c := growCap(s.cap, s.len+n)
		ns := st.makeSlice(et, s.len+n, c)
		o := st.heap[ns.obj]
		copy(o.slots, st.slotsOf(s, es))
		copy(o.slots[s.len*es:], add)
		return ns, true
	case "copy":
		d := arg(0).(Slice)
		es := I.n
		switch b := arg(1).(type) {
		case Slice:
			n := min(d.len, b.len)
			if n > 0 {
				v := append([]Value(nil), st.loadSlots(Ptr{b.obj, b.off}, n*es)...)
				st.storeSlots(Ptr{d.obj, d.off}, v)
			}
			return x.Const(64, uint64(n)), true
		case *Str:
			n := min(int(d.len), len(b.b))
			v := make([]Value, n)
			for i := range v {
				v[i] = b.b[i]
			}
			st.storeSlots(Ptr{d.obj, d.off}, v)
			return x.Const(64, uint64(n)), true
		}
	case "clear":
		switch a := arg(0).(type) {
		case Slice:
			et := I.t.Underlying().(*types.Slice).Elem()
			z := st.w.prog.zeroSlots(et)
			var v []Value
			for i := int32(0); i < a.len; i++ {
				v = append(v, z...)
			}
			st.storeSlots(Ptr{a.obj, a.off}, v)
		case MapRef:
			if a.obj != 0 {
				if st.mt {
					st.raceWrite(a.obj, 0, false)
				}
				st.wobj(a.obj).mp = &MapData{idx: map[mapKey]int{}}
			}
		}
		return nil, true
	case "min", "max":
		switch r := arg(0).(type) {
		case *Expr:
			sg := signedT(I.t)
			for i := 1; i < len(I.args); i++ {
				b := arg(i).(*Expr)
				var lt *Expr
				if sg {
					lt = x.Slt(b, r)
				} else {
					lt = x.Ult(b, r)
				}
				if name == "max" {
					if sg {
						lt = x.Slt(r, b)
					} else {
						lt = x.Ult(r, b)
					}
				}
				r = x.Ite(lt, b, r)
			}
			return r, true
		case float64:
			for i := 1; i < len(I.args); i++ {
				b := arg(i).(float64)
				if name == "min" {
					r = math.Min(r, b)
				} else {
					r = math.Max(r, b)
				}
			}
			return r, true
		}
	case "delete":
		st.mapDelete(arg(0).(MapRef), arg(1))
		return nil, true
	case "close":
		done := false
		st.visible(chanFP(arg(0)), func() bool {
			st.chanClose(arg(0).(ChanRef))
			done = true
			if st.threads[st.cur].panic == nil && len(st.threads[st.cur].frames) > 0 && st.threads[st.cur].top() == f {
				f.ip++
			}
			return true
		})
		_ = done
		return nil, false
	case "panic":
		st.goPanic("panic")
		return nil, false
	case "recover":
		return st.doRecover(), true
	case "print", "println":
		return nil, true
	case "ssa:wrapnilchk":
		if q, ok := arg(0).(Ptr); ok && q.obj == 0 {
			st.goPanic("value method called using nil pointer")
			return nil, false
		}
		return arg(0), true
	case "ssa:deferstack":
		return nil, true
	case "String": // unsafe.String
		q := arg(0).(Ptr)
		n, _ := st.intArg(&I.args[1], f)
		if n == 0 {
			return &Str{}, true
		}
		return &Str{st.bytesOf(Slice{q.obj, q.off, int32(n), int32(n)})}, true
	case "StringData":
		s := arg(0).(*Str)
		b := st.newBytes(s.b)
		return Ptr{b.obj, b.off}, true
	case "SliceData":
		s := arg(0).(Slice)
		return Ptr{s.obj, s.off}, true
	case "Slice":
		q := arg(0).(Ptr)
		n, _ := st.intArg(&I.args[1], f)
		return Slice{q.obj, q.off, int32(n), int32(n)}, true
	}
	st.unsup("builtin %s on %T", name, arg(0))
	return nil, false
}

// ---- maps ----

func (st *State) mkey(v Value) (mapKey, bool) {
	switch k := v.(type) {
	case *Expr:
		if k.isC() {
			return mapKey{a: k.c, b: uint64(k.w)}, true
		}
	case Ptr:
		return mapKey{a: uint64(k.obj), b: uint64(k.off) | 1<<40}, true
	case ChanRef:
		return mapKey{a: uint64(k.obj), b: 1 << 41}, true
	case Iface:
		if k.t == nil {
			return mapKey{b: 1 << 42}, true
		}
		r, ok := st.mkey(k.v)
		r.t = k.t
		return r, ok
	case *Str:
		b := make([]byte, len(k.b))
		for i, e := range k.b {
			if !e.isC() {
				return mapKey{}, false
			}
			b[i] = byte(e.c)
		}
		return mapKey{s: string(b), b: 1 << 43}, true
	}
	return mapKey{}, false
}

func (st *State) mapFind(m *MapData, k Value) int {
	mk, ok := st.mkey(k)
	if ok {
		if i, ok := m.idx[mk]; ok {
			return i
		}
		if len(m.idx) == m.n {
			return -1
		}
	}
	for i := range m.ents {
		if m.ents[i].k == nil {
			continue
		}
		if ok {
			if _, c := st.mkey(m.ents[i].k); c {
				continue
			}
		}
		if st.decide(st.equal(m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (st *State) mapLookup(r MapRef, k Value) (Value, bool) {
	if r.obj == 0 {
		return nil, false
	}
	if st.mt {
		st.raceRead(r.obj, 0, false)
	}
	m := st.obj(r.obj).mp
	if i := st.mapFind(m, k); i >= 0 {
		return m.ents[i].v, true
	}
	return nil, false
}
func (st *State) mapSet(r MapRef, k, v Value) {
	i := st.mapFind(st.obj(r.obj).mp, k)
	if st.mt {
		st.raceWrite(r.obj, 0, false)
	}
	m := st.wobj(r.obj).mp
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	m.ents = append(m.ents, mapEntry{k, v})
	if mk, ok := st.mkey(k); ok {
		m.idx[mk] = len(m.ents) - 1
	}
	m.n++
}
func (st *State) mapDelete(r MapRef, k Value) {
	if r.obj == 0 {
		return
	}
	i := st.mapFind(st.obj(r.obj).mp, k)
	if st.mt {
		st.raceWrite(r.obj, 0, false)
	}
	if i < 0 {
		return
	}
	m := st.wobj(r.obj).mp
	if mk, ok := st.mkey(m.ents[i].k); ok {
		delete(m.idx, mk)
	}
	m.ents[i] = mapEntry{}
	m.n--
}

var _ ssa.Instruction
