package main

import (
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(st *State, in *Instr, args []Value) Value

const symPkg = "verif/harness/sym"

var intrinsics = map[string]intrinsic{}

func lookupIntrinsic(name string) intrinsic { return intrinsics[name] }

// packages whose init functions are executed
var initPkgs = map[string]bool{
	"errors": false, "container/list": true, "bytes": true, "strings": true, "sort": true, "slices": true,
}

func pkgIntrinsic(path string, f *ssa.Function) intrinsic {
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Parent() == nil && f.Synthetic != "" {
		ok := initPkgs[path] || strings.HasPrefix(path, "verif/") || strings.Contains(path, "adaptive") || strings.Contains(path, "hashicorp")
		if !ok {
			return func(st *State, in *Instr, args []Value) Value { return nil }
		}
	}
	switch path {
	case "fmt", "log", "os":
		return opaque
	}
	return nil
}

// opaque returns the zero value of the callee's results (formatted output is
// not modelled).
func opaque(st *State, in *Instr, args []Value) Value {
	var t types.Type
	if c, ok := in.in.(ssa.CallInstruction); ok {
		sig := c.Common().Signature()
		switch sig.Results().Len() {
		case 0:
			return nil
		case 1:
			t = sig.Results().At(0).Type()
		default:
			t = sig.Results()
		}
		if c.Common().StaticCallee() != nil && c.Common().StaticCallee().Name() == "Errorf" {
			return Iface{st.w.prog.canon(types.Typ[types.String]), st.w.prog.strConst("error")}
		}
		return st.w.prog.zero(t)
	}
	return nil
}

func constStr(st *State, v Value) string {
	s := v.(*Str)
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		if !e.isC() {
			return "?"
		}
		b[i] = byte(e.c)
	}
	return string(b)
}

func (st *State) cmp3(a, b []*Expr) *Expr {
	x := st.w.x
	return x.Ite(st.strLess(a, b), x.Const(64, ^uint64(0)), x.Ite(st.strEq(a, b), x.Const(64, 0), x.Const(64, 1)))
}

func b2e(st *State, c *Expr) *Expr {
	return st.w.x.Ite(c, st.w.x.Const(64, 1), st.w.x.Const(64, 0))
}

func indexByte(st *State, b []*Expr, c *Expr) Value {
	x := st.w.x
	r := x.Const(64, ^uint64(0))
	for i := len(b) - 1; i >= 0; i-- {
		r = x.Ite(x.Eq(b[i], c), x.Const(64, uint64(i)), r)
	}
	return r
}

func lastIndexByte(st *State, b []*Expr, c *Expr) Value {
	x := st.w.x
	r := x.Const(64, ^uint64(0))
	for i := 0; i < len(b); i++ {
		r = x.Ite(x.Eq(b[i], c), x.Const(64, uint64(i)), r)
	}
	return r
}

func bitsFn(w uint8, f func(uint64) int) intrinsic {
	return func(st *State, in *Instr, args []Value) Value {
		e := args[0].(*Expr)
		return st.w.x.Const(64, uint64(f(st.concretize(e))))
	}
}

func init() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	s := func(n string, f intrinsic) { intrinsics[symPkg+"."+n] = f }

	// ---- harness vocabulary ----
	s("Byte", func(st *State, in *Instr, args []Value) Value {
		e := st.w.x.Var(st.nvars, 8)
		st.nvars++
		st.inputs = append(st.inputs, input{name: constStr(st, args[0]), kind: 'b', e: e})
		return e
	})
	s("Choice", func(st *State, in *Instr, args []Value) Value {
		n := int(st.concretize(args[1].(*Expr)))
		c := st.forkN(n)
		st.inputs = append(st.inputs, input{name: constStr(st, args[0]), kind: 'c', c: c})
		return st.w.x.Const(64, uint64(c))
	})
	s("Param", func(st *State, in *Instr, args []Value) Value {
		n := constStr(st, args[0])
		if v, ok := st.task.Params[n]; ok {
			return st.w.x.Const(64, uint64(int64(v)))
		}
		return args[1]
	})
	s("Assume", func(st *State, in *Instr, args []Value) Value {
		st.assume(args[0].(*Expr))
		return nil
	})
	s("Assert", func(st *State, in *Instr, args []Value) Value {
		st.assert(args[0].(*Expr), constStr(st, args[1]))
		return nil
	})
	s("Reach", func(st *State, in *Instr, args []Value) Value {
		st.w.reach[constStr(st, args[0])]++
		return nil
	})
	s("Symbolic", func(st *State, in *Instr, args []Value) Value { return st.w.x.True })
	s("Observe", func(st *State, in *Instr, args []Value) Value {
		e := args[1].(*Expr)
		st.obs = append(st.obs, obsRec{constStr(st, args[0]), []*Expr{e}})
		return nil
	})
	s("ObserveBytes", func(st *State, in *Instr, args []Value) Value {
		st.obs = append(st.obs, obsRec{constStr(st, args[0]), st.bytesOf(args[1].(Slice))})
		return nil
	})
	s("And", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.And(args[0].(*Expr), args[1].(*Expr))
	})
	s("Or", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.Or(args[0].(*Expr), args[1].(*Expr))
	})
	s("Implies", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.Or(st.w.x.Not(args[0].(*Expr)), args[1].(*Expr))
	})
	s("Known", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.Bool(args[0].(*Expr) == st.w.x.True)
	})
	s("Iff", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.Eq(args[0].(*Expr), args[1].(*Expr))
	})
	s("Ite", func(st *State, in *Instr, args []Value) Value {
		return st.w.x.Ite(args[0].(*Expr), args[1].(*Expr), args[2].(*Expr))
	})
	s("Eq", func(st *State, in *Instr, args []Value) Value {
		return st.settle(st.strEq(st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice))))
	})
	s("Less", func(st *State, in *Instr, args []Value) Value {
		return st.settle(st.strLess(st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice))))
	})
	s("HasPrefix", func(st *State, in *Instr, args []Value) Value {
		a, b := st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice))
		if len(b) > len(a) {
			return st.w.x.False
		}
		return st.settle(st.strEq(a[:len(b)], b))
	})

	s("Gate", func(st *State, in *Instr, args []Value) Value { return nil })

	// ---- byte slices and strings ----
	cmpI := func(st *State, in *Instr, args []Value) Value {
		return st.cmp3(st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice)))
	}
	reg("internal/bytealg.Compare", cmpI)
	reg("bytes.Compare", cmpI)
	eqI := func(st *State, in *Instr, args []Value) Value {
		return st.strEq(st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice)))
	}
	reg("bytes.Equal", eqI)
	reg("internal/bytealg.Equal", eqI)
	reg("bytes.HasPrefix", intrinsics[symPkg+".HasPrefix"])
	reg("bytes.HasSuffix", func(st *State, in *Instr, args []Value) Value {
		a, b := st.bytesOf(args[0].(Slice)), st.bytesOf(args[1].(Slice))
		if len(b) > len(a) {
			return st.w.x.False
		}
		return st.strEq(a[len(a)-len(b):], b)
	})
	ib := func(st *State, in *Instr, args []Value) Value {
		return indexByte(st, st.bytesOf(args[0].(Slice)), args[1].(*Expr))
	}
	reg("bytes.IndexByte", ib)
	reg("internal/bytealg.IndexByte", ib)
	lib := func(st *State, in *Instr, args []Value) Value {
		return lastIndexByte(st, st.bytesOf(args[0].(Slice)), args[1].(*Expr))
	}
	reg("bytes.LastIndexByte", lib)
	reg("internal/bytealg.LastIndexByte", lib)
	ibs := func(st *State, in *Instr, args []Value) Value {
		return indexByte(st, args[0].(*Str).b, args[1].(*Expr))
	}
	reg("strings.IndexByte", ibs)
	reg("internal/bytealg.IndexByteString", ibs)
	reg("strings.HasPrefix", func(st *State, in *Instr, args []Value) Value {
		a, b := args[0].(*Str).b, args[1].(*Str).b
		if len(b) > len(a) {
			return st.w.x.False
		}
		return st.strEq(a[:len(b)], b)
	})
	cmpS := func(st *State, in *Instr, args []Value) Value {
		return st.cmp3(args[0].(*Str).b, args[1].(*Str).b)
	}
	reg("strings.Compare", cmpS)
	reg("internal/bytealg.CompareString", cmpS)
	reg("runtime.cmpstring", cmpS)
	reg("strings.Clone", func(st *State, in *Instr, args []Value) Value { return args[0] })
	reg("internal/bytealg.MakeNoZero", func(st *State, in *Instr, args []Value) Value {
		n := int32(st.concretize(args[0].(*Expr)))
		return st.makeSlice(types.Typ[types.Uint8], n, n)
	})
	count := func(st *State, b []*Expr, c *Expr) Value {
		x := st.w.x
		r := x.Const(64, 0)
		for _, e := range b {
			r = x.Bin(OAdd, r, b2e(st, x.Eq(e, c)))
		}
		return r
	}
	reg("internal/bytealg.Count", func(st *State, in *Instr, args []Value) Value {
		return count(st, st.bytesOf(args[0].(Slice)), args[1].(*Expr))
	})
	reg("internal/bytealg.CountString", func(st *State, in *Instr, args []Value) Value {
		return count(st, args[0].(*Str).b, args[1].(*Expr))
	})

	// ---- math/bits ----
	reg("math/bits.LeadingZeros", bitsFn(64, bits.LeadingZeros64))
	reg("math/bits.LeadingZeros64", bitsFn(64, bits.LeadingZeros64))
	reg("math/bits.LeadingZeros32", bitsFn(32, func(v uint64) int { return bits.LeadingZeros32(uint32(v)) }))
	reg("math/bits.LeadingZeros16", bitsFn(16, func(v uint64) int { return bits.LeadingZeros16(uint16(v)) }))
	reg("math/bits.LeadingZeros8", bitsFn(8, func(v uint64) int { return bits.LeadingZeros8(uint8(v)) }))
	reg("math/bits.TrailingZeros", bitsFn(64, bits.TrailingZeros64))
	reg("math/bits.TrailingZeros64", bitsFn(64, bits.TrailingZeros64))
	reg("math/bits.TrailingZeros32", bitsFn(32, func(v uint64) int { return bits.TrailingZeros32(uint32(v)) }))
	reg("math/bits.TrailingZeros16", bitsFn(16, func(v uint64) int { return bits.TrailingZeros16(uint16(v)) }))
	reg("math/bits.TrailingZeros8", bitsFn(8, func(v uint64) int { return bits.TrailingZeros8(uint8(v)) }))
	for _, n := range []string{"OnesCount", "OnesCount64", "OnesCount32", "OnesCount16", "OnesCount8"} {
		reg("math/bits."+n, bitsFn(64, bits.OnesCount64))
	}
	for _, n := range []string{"Len", "Len64", "Len32", "Len16", "Len8"} {
		reg("math/bits."+n, bitsFn(64, bits.Len64))
	}

	// ---- errors ----
	reg("errors.New", func(st *State, in *Instr, args []Value) Value {
		id := st.alloc([]Value{args[0]})
		return Iface{st.w.prog.canon(types.NewPointer(types.Typ[types.String])), Ptr{id, 0}}
	})

	// ---- runtime ----
	nop := func(st *State, in *Instr, args []Value) Value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "sync.runtime_registerPoolCleanup", "sync.init#0", "sync.init#1"} {
		reg(n, nop)
	}
	reg("runtime.Gosched", vis(func(st *State, in *Instr, args []Value) (Value, bool) { return nil, true }))
	reg("runtime.GOMAXPROCS", func(st *State, in *Instr, args []Value) Value { return st.w.x.Const(64, 1) })
	reg("runtime.NumCPU", func(st *State, in *Instr, args []Value) Value { return st.w.x.Const(64, 1) })
	reg("internal/abi.NoEscape", func(st *State, in *Instr, args []Value) Value { return args[0] })
	reg("internal/abi.Escape", func(st *State, in *Instr, args []Value) Value { return args[0] })

	// ---- sync/atomic: the package functions; the typed wrappers are interpreted ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, vis(func(st *State, in *Instr, args []Value) (Value, bool) {
			p, ok := st.exactPtr(args[0])
			if !ok {
				return redo, true
			}
			if st.mt {
				st.raceRead(p.obj, p.off, true)
				st.acquire(p)
			}
			return st.obj(p.obj).slots[p.off], true
		}))
		reg("sync/atomic.Store"+ty, vis(func(st *State, in *Instr, args []Value) (Value, bool) {
			p, ok := st.exactPtr(args[0])
			if !ok {
				return redo, true
			}
			if st.mt {
				st.raceWrite(p.obj, p.off, true)
				st.release(p)
			}
			st.wobj(p.obj).slots[p.off] = args[1]
			return nil, true
		}))
		reg("sync/atomic.Swap"+ty, vis(func(st *State, in *Instr, args []Value) (Value, bool) {
			p, ok := st.exactPtr(args[0])
			if !ok {
				return redo, true
			}
			if st.mt {
				st.raceWrite(p.obj, p.off, true)
				st.acquire(p)
				st.release(p)
			}
			o := st.wobj(p.obj)
			v := o.slots[p.off]
			o.slots[p.off] = args[1]
			return v, true
		}))
		reg("sync/atomic.CompareAndSwap"+ty, vis(func(st *State, in *Instr, args []Value) (Value, bool) {
			p, ok := st.exactPtr(args[0])
			if !ok {
				return redo, true
			}
			eq := st.decide(st.equal(st.obj(p.obj).slots[p.off], args[1]))
			if eq {
				if st.mt {
					st.raceWrite(p.obj, p.off, true)
					st.acquire(p)
					st.release(p)
				}
				st.wobj(p.obj).slots[p.off] = args[2]
			} else if st.mt {
				st.raceRead(p.obj, p.off, true)
				st.acquire(p)
			}
			return st.w.x.Bool(eq), true
		}))
		for _, op := range []struct {
			n string
			o Op
		}{{"Add", OAdd}, {"And", OAnd}, {"Or", OOr}} {
			if ty == "Pointer" {
				continue
			}
			op := op
			reg("sync/atomic."+op.n+ty, vis(func(st *State, in *Instr, args []Value) (Value, bool) {
				p, ok := st.exactPtr(args[0])
				if !ok {
					return redo, true
				}
				if st.mt {
					st.raceWrite(p.obj, p.off, true)
					st.acquire(p)
					st.release(p)
				}
				o := st.wobj(p.obj)
				old := o.slots[p.off].(*Expr)
				nv := st.w.x.Bin(op.o, old, args[1].(*Expr))
				o.slots[p.off] = nv
				if op.n == "Add" {
					return nv, true
				}
				return old, true
			}))
		}
	}
	// atomic.Value keeps an interface in its only slot
	reg("(*sync/atomic.Value).Load", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo, true
		}
		if st.mt {
			st.raceRead(p.obj, p.off, true)
			st.acquire(p)
		}
		return st.obj(p.obj).slots[p.off], true
	}))
	reg("(*sync/atomic.Value).Store", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo, true
		}
		if st.mt {
			st.raceWrite(p.obj, p.off, true)
			st.release(p)
		}
		st.wobj(p.obj).slots[p.off] = args[1]
		return nil, true
	}))

	reg("(*sync/atomic.Value).Swap", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo, true
		}
		if st.mt {
			st.raceWrite(p.obj, p.off, true)
			st.acquire(p)
			st.release(p)
		}
		o := st.wobj(p.obj)
		v := o.slots[p.off]
		o.slots[p.off] = args[1]
		return v, true
	}))
	reg("(*sync/atomic.Value).CompareAndSwap", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo, true
		}
		eq := st.decide(st.equal(st.obj(p.obj).slots[p.off], args[1]))
		if eq {
			if st.mt {
				st.raceWrite(p.obj, p.off, true)
				st.acquire(p)
				st.release(p)
			}
			st.wobj(p.obj).slots[p.off] = args[2]
		} else if st.mt {
			st.raceRead(p.obj, p.off, true)
			st.acquire(p)
		}
		return st.w.x.Bool(eq), true
	}))

	// ---- sync ----
	// A mutex keeps its state in its first slot: readers<<1 | writer.
	mu := func(f func(st *State, p Ptr, v int64) (int64, Value, bool)) intrinsic {
		return vis(func(st *State, in *Instr, args []Value) (Value, bool) {
			p, ok := st.exactPtr(args[0])
			if !ok {
				return redo, true
			}
			e := st.obj(p.obj).slots[p.off].(*Expr)
			n, v, ok := f(st, p, sx(e.c, e.w))
			if !ok {
				return nil, false
			}
			if st.threads[st.cur].panic != nil {
				return redo, true
			}
			st.wobj(p.obj).slots[p.off] = st.w.x.Const(e.w, uint64(n))
			return v, true
		})
	}
	lock := mu(func(st *State, p Ptr, v int64) (int64, Value, bool) {
		if v != 0 {
			return v, nil, false
		}
		st.acquire(p)
		return 1, nil, true
	})
	unlock := mu(func(st *State, p Ptr, v int64) (int64, Value, bool) {
		if v != 1 {
			st.goPanic("sync: unlock of unlocked mutex")
			return v, nil, true
		}
		st.release(p)
		return 0, nil, true
	})
	try := mu(func(st *State, p Ptr, v int64) (int64, Value, bool) {
		if v != 0 {
			return v, st.w.x.False, true
		}
		st.acquire(p)
		return 1, st.w.x.True, true
	})
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.RWMutex).RLock", mu(func(st *State, p Ptr, v int64) (int64, Value, bool) {
		if v == 1 {
			return v, nil, false
		}
		st.acquire(p)
		return v + 2, nil, true
	}))
	reg("(*sync.RWMutex).RUnlock", mu(func(st *State, p Ptr, v int64) (int64, Value, bool) {
		if v < 2 {
			st.goPanic("sync: RUnlock of unlocked RWMutex")
			return v, nil, true
		}
		st.release(p)
		return v - 2, nil, true
	}))
	reg("(*sync.WaitGroup).Add", func(st *State, in *Instr, args []Value) Value {
		return st.wgAdd(args[0], args[1].(*Expr))
	})
	reg("(*sync.WaitGroup).Done", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		return st.wgAdd(args[0], st.w.x.Const(64, ^uint64(0))), true
	}))
	reg("(*sync.WaitGroup).Wait", vis(func(st *State, in *Instr, args []Value) (Value, bool) {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo, true
		}
		if e := st.obj(p.obj).slots[p.off].(*Expr); e.isC() && e.c == 0 {
			st.acquire(p)
			return nil, true
		}
		return nil, false
	}))
	reg("(*sync.WaitGroup).Go", func(st *State, in *Instr, args []Value) Value {
		st.unsup("WaitGroup.Go")
		return nil
	})
	// A pool hands out what was put back last, otherwise something new.
	reg("(*sync.Pool).Put", func(st *State, in *Instr, args []Value) Value {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo
		}
		if v, ok := args[1].(Iface); ok && v.t == nil {
			return nil
		}
		if st.pools == nil {
			st.pools = map[Ptr][]Value{}
		}
		if st.mt {
			st.release(p)
		}
		st.pools[p] = append(st.pools[p], args[1])
		return nil
	})
	reg("(*sync.Pool).Get", func(st *State, in *Instr, args []Value) Value {
		p, ok := st.exactPtr(args[0])
		if !ok {
			return redo
		}
		if h := st.pools[p]; len(h) > 0 {
			if st.mt {
				st.acquire(p)
			}
			st.pools[p] = h[: len(h)-1 : len(h)-1]
			return h[len(h)-1]
		}
		// New is the last field
		recv := in.in.(ssa.CallInstruction).Common().StaticCallee().Signature.Recv().Type()
		n := st.w.prog.slots(recv.(*types.Pointer).Elem())
		c, _ := st.obj(p.obj).slots[p.off+n-1].(*Closure)
		if c == nil {
			return Iface{}
		}
		f := st.threads[st.cur].top()
		f.ip++
		st.pushCall(c.fn, nil, c.free, in.dst)
		return redo
	})
	reg("sync.runtime_procPin", func(st *State, in *Instr, args []Value) Value { return st.w.x.Const(64, 0) })
	reg("sync.fatal", func(st *State, in *Instr, args []Value) Value { st.goPanic("sync fatal"); return redo })

	// ---- sort.Slice support ----
	reg("sort.Slice", nil)
	delete(intrinsics, "sort.Slice")
	reg("internal/reflectlite.Swapper", func(st *State, in *Instr, args []Value) Value {
		a := args[0].(Iface)
		sl := a.v.(Slice)
		es := st.w.prog.slots(a.t.Underlying().(*types.Slice).Elem())
		return &Closure{native: func(st *State, args []Value) Value {
			i := int32(st.concretize(args[0].(*Expr)))
			j := int32(st.concretize(args[1].(*Expr)))
			pi, pj := Ptr{sl.obj, sl.off + i*es}, Ptr{sl.obj, sl.off + j*es}
			vi := append([]Value(nil), st.loadSlots(pi, es)...)
			vj := append([]Value(nil), st.loadSlots(pj, es)...)
			st.storeSlots(pi, vj)
			st.storeSlots(pj, vi)
			return nil
		}}
	})
	reg("internal/reflectlite.ValueOf", func(st *State, in *Instr, args []Value) Value {
		return &Agg{[]Value{args[0]}}
	})
	reg("(internal/reflectlite.Value).Len", func(st *State, in *Instr, args []Value) Value {
		a := args[0].(*Agg).s[0].(Iface)
		return st.w.x.Const(64, uint64(a.v.(Slice).len))
	})
}

// vis wraps an operation that is a scheduling point.
func vis(f func(st *State, in *Instr, args []Value) (Value, bool)) intrinsic {
	return func(st *State, in *Instr, args []Value) Value {
		if !st.mt {
			v, ok := f(st, in, args)
			if !ok {
				st.end(endViolation, "deadlock: blocked forever [%s]", st.where())
			}
			return v
		}
		fr := st.threads[st.cur].top()
		fp := []access{{obj: -1}}
		if len(args) > 0 {
			if p, ok := args[0].(Ptr); ok {
				fp[0] = access{p.obj, p.off, !strings.HasPrefix(in.callee(), "Load")}
			}
		}
		st.visible(fp, func() bool {
			v, ok := f(st, in, args)
			if ok && v != redo {
				if in.dst >= 0 {
					fr.regs[in.dst] = v
				}
				if !fr.unwinding && in.in != nil {
					fr.ip++
				}
			}
			return ok
		})
		return redo
	}
}

func (st *State) wgAdd(a Value, d *Expr) Value {
	p, ok := st.exactPtr(a)
	if !ok {
		return redo
	}
	st.release(p)
	o := st.wobj(p.obj)
	e := o.slots[p.off].(*Expr)
	o.slots[p.off] = st.w.x.Bin(OAdd, e, st.w.x.Trunc(d, e.w))
	return nil
}
