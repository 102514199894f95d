package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const recvDir = types.RecvOnly

func selectOf(I *Instr) *ssa.Select { return I.aux.(*ssa.Select) }
func chanElem(t types.Type) types.Type {
	return t.Underlying().(*types.Chan).Elem()
}

// Threads, channels and happens-before race detection.

type VC []int32

type epoch struct {
	tid, clk int32
	atomic   bool
	set      bool
}
type shadow struct {
	w epoch
	r []epoch
}
type muState struct{}

func (v VC) at(i int32) int32 {
	if int(i) < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i := range o {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
	return v
}

func (st *State) spawn(fn *Fn, args, free []Value) {
	me := st.threads[st.cur]
	if !st.mt {
		st.mt = true
		if st.syncVC == nil {
			st.syncVC = map[Ptr]VC{}
		}
		for i := range st.threads {
			st.threads[i].vc = make(VC, i+1)
			st.threads[i].vc[i] = 1
		}
	}
	id := len(st.threads)
	t := &Thread{id: id}
	t.vc = append(VC(nil), me.vc...)
	for len(t.vc) <= id {
		t.vc = append(t.vc, 0)
	}
	t.vc[id] = 1
	me.vc[st.cur]++
	st.threads = append(st.threads, t)
	cur := st.cur
	st.cur = id
	if fn.intr != nil {
		st.unsup("go intrinsic %s", fn.name)
	}
	f := st.pushCall(fn, args, free, -1)
	f.discard = true
	st.cur = cur
}

// access is a place an operation of a thread concerns; obj -1 is every place.
type access struct {
	obj, off int32
	write    bool
}

func chanFP(v Value) []access {
	c, _ := v.(ChanRef)
	return []access{{c.obj, 0, true}}
}

func dependent(a, b []access) bool {
	for _, x := range a {
		for _, y := range b {
			if x.obj == -1 || y.obj == -1 || (x.obj == y.obj && x.off == y.off && (x.write || y.write)) {
				return true
			}
		}
	}
	return false
}

// schedule picks the thread to go on with. Threads first run up to their next
// scheduling-relevant operation; then one of these operations is chosen. Sleep
// sets leave out orders that differ only in swapping independent operations.
func (st *State) schedule() {
	for i, t := range st.threads {
		if !t.done && !t.parked {
			st.cur = i
			return
		}
	}
	var r []int
	enabled := 0
	for k := range st.threads {
		i := k
		// the current thread first
		if k == 0 {
			i = st.cur
		} else if k <= st.cur {
			i = k - 1
		}
		t := st.threads[i]
		if t.done || t.blocked {
			continue
		}
		enabled++
		if st.sleep>>i&1 == 0 {
			r = append(r, i)
		}
	}
	if enabled == 0 {
		st.end(endViolation, "deadlock: all goroutines are asleep [%s]", st.where())
	}
	if len(r) == 0 {
		st.end(endRedundant, "")
	}
	k := st.forkN(len(r))
	for _, i := range r[:k] {
		st.sleep |= 1 << i
	}
	st.cur = r[k]
	st.sched = append(st.sched, byte(r[k]))
	st.threads[r[k]].granted = true
	st.alone = len(r) == 1
}

// visible runs a scheduling-relevant operation. op returns false when it would block.
func (st *State) visible(fp []access, op func() bool) {
	t := st.threads[st.cur]
	if st.mt && !t.granted {
		t.parked, t.fp = true, fp
		me := st.cur
		st.schedule()
		if st.cur != me {
			return
		}
	}
	ok := op()
	if !ok {
		if !st.mt {
			st.end(endViolation, "deadlock: blocked forever [%s]", st.where())
		}
		if !st.alone {
			// the same as choosing one of the others first
			st.end(endRedundant, "")
		}
		t.granted = false
		t.blocked = true
		st.schedule()
		return
	}
	t.granted, t.parked = false, false
	if !st.mt {
		return
	}
	for i, u := range st.threads {
		if u != t && dependent(u.fp, fp) {
			u.blocked = false
			st.sleep &^= 1 << i
		}
	}
}

func (st *State) shadowOf(obj, off int32) *shadow {
	o := st.wobj(obj)
	if int(off) >= len(o.sh) {
		n := make([]shadow, max(len(o.slots), int(off)+1))
		copy(n, o.sh)
		o.sh = n
	}
	return &o.sh[off]
}

func (st *State) race(kind string, obj, off int32, e epoch) {
	st.end(endViolation, "data race: %s by goroutine %d conflicts with goroutine %d [%s]", kind, st.cur, e.tid, st.where())
}

func (st *State) raceRead(obj, off int32, atomic bool) {
	me := int32(st.cur)
	vc := st.threads[st.cur].vc
	s := st.shadowOf(obj, off)
	if s.w.set && s.w.tid != me && s.w.clk > vc.at(s.w.tid) && !(atomic && s.w.atomic) {
		st.race("read", obj, off, s.w)
	}
	nr := make([]epoch, 0, len(s.r)+1)
	for _, e := range s.r {
		if e.tid == me && (e.atomic == atomic) {
			continue
		}
		nr = append(nr, e)
	}
	s.r = append(nr, epoch{me, vc.at(me), atomic, true})
}

func (st *State) raceWrite(obj, off int32, atomic bool) {
	me := int32(st.cur)
	vc := st.threads[st.cur].vc
	s := st.shadowOf(obj, off)
	if s.w.set && s.w.tid != me && s.w.clk > vc.at(s.w.tid) && !(atomic && s.w.atomic) {
		st.race("write", obj, off, s.w)
	}
	for _, e := range s.r {
		if e.tid != me && e.clk > vc.at(e.tid) && !(atomic && e.atomic) {
			st.race("write", obj, off, e)
		}
	}
	s.w = epoch{me, vc.at(me), atomic, true}
	s.r = nil
}

func (st *State) acquire(p Ptr) {
	if st.mt {
		t := st.threads[st.cur]
		t.vc = t.vc.join(st.syncVC[p])
	}
}
func (st *State) release(p Ptr) {
	if st.mt {
		t := st.threads[st.cur]
		st.syncVC[p] = append(VC(nil), st.syncVC[p]...).join(t.vc)
		t.vc[st.cur]++
	}
}

// ---- channels ----

func (st *State) chanClose(c ChanRef) {
	if c.obj == 0 {
		st.goPanic("close of nil channel")
		return
	}
	ch := st.wobj(c.obj).ch
	if ch.closed {
		st.goPanic("close of closed channel")
		return
	}
	ch.closed = true
	st.release(Ptr{c.obj, 0})
}

func (st *State) chanSend(c ChanRef, v Value) bool {
	if c.obj == 0 {
		return false
	}
	ch := st.wobj(c.obj).ch
	if ch.closed {
		st.goPanic("send on closed channel")
		return true
	}
	// unbuffered channels are modelled with one hand-off slot that may only be
	// filled while a receiver is blocked on the channel
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		st.release(Ptr{c.obj, 0})
		return true
	}
	if ch.cap == 0 {
		st.unsup("send on unbuffered channel")
	}
	return false
}

func (st *State) chanRecv(c ChanRef) (v Value, more, ok bool) {
	if c.obj == 0 {
		return nil, false, false
	}
	ch := st.obj(c.obj).ch
	if len(ch.buf) > 0 {
		ch = st.wobj(c.obj).ch
		v = ch.buf[0]
		ch.buf = ch.buf[1:]
		st.acquire(Ptr{c.obj, 0})
		return v, true, true
	}
	if ch.closed {
		st.acquire(Ptr{c.obj, 0})
		return ch.zero, false, true
	}
	return nil, false, false
}

func (st *State) spawnInfo() string { return fmt.Sprint(st.sched) }

func (st *State) doSelect(I *Instr, f *Frame) bool {
	x := st.w.x
	sel := selectOf(I)
	var r []int
	for i, s := range sel.States {
		c, _ := f.get(&I.args[2*i]).(ChanRef)
		if c.obj == 0 {
			continue
		}
		ch := st.obj(c.obj).ch
		if s.Dir == recvDir {
			if len(ch.buf) > 0 || ch.closed {
				r = append(r, i)
			}
		} else if ch.closed || len(ch.buf) < ch.cap {
			r = append(r, i)
		} else if ch.cap == 0 {
			// a receiver never waits on it in the modelled subset
			continue
		}
	}
	// result tuple: index, recvOk, then one value per receive state
	res := Tuple{nil, x.False}
	for _, s := range sel.States {
		if s.Dir == recvDir {
			res = append(res, st.w.prog.zero(chanElem(s.Chan.Type())))
		}
	}
	if len(r) == 0 {
		if sel.Blocking {
			return false
		}
		res[0] = x.Const(64, ^uint64(0))
		f.regs[I.dst] = res
		f.ip++
		return true
	}
	k := r[st.forkN(len(r))]
	s := sel.States[k]
	c := f.get(&I.args[2*k]).(ChanRef)
	res[0] = x.Const(64, uint64(k))
	if s.Dir == recvDir {
		v, more, _ := st.chanRecv(c)
		j := 2
		for i := 0; i < k; i++ {
			if sel.States[i].Dir == recvDir {
				j++
			}
		}
		res[j] = v
		res[1] = x.Bool(more)
	} else {
		st.chanSend(c, f.get(&I.args[2*k+1]))
		if st.threads[st.cur].panic != nil {
			return true
		}
	}
	f.regs[I.dst] = res
	f.ip++
	return true
}

// callee is the name of the function a call instruction names.
func (in *Instr) callee() string {
	if c, ok := in.in.(ssa.CallInstruction); ok {
		if f := c.Common().StaticCallee(); f != nil {
			return f.Name()
		}
	}
	return ""
}
