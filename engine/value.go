package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr, Ptr, SymPtr, Slice, *Str, Iface, *Closure, MapRef,
// ChanRef, *Agg, Tuple, float64, *RangeIter.
type Value any

type Ptr struct{ obj, off int32 }

// SymPtr addresses base+idx*es+fo with a symbolic idx known to be < n.
type SymPtr struct {
	obj, base, es, n, fo int32
	idx                  *Expr
}
type Slice struct{ obj, off, len, cap int32 }
type Str struct{ b []*Expr }
type Iface struct {
	t types.Type // canonical; nil for a nil interface
	v Value
}
type Closure struct {
	fn     *Fn
	free   []Value
	native func(st *State, args []Value) Value
}
type MapRef struct{ obj int32 }
type ChanRef struct{ obj int32 }

// Agg is a struct or array value, flattened to slots.
type Agg struct{ s []Value }
type Tuple []Value

type mapEntry struct{ k, v Value }
type mapKey struct {
	t    types.Type
	a, b uint64
	s    string
}
type MapData struct {
	ents []mapEntry // deleted entries have k==nil
	idx  map[mapKey]int
	n    int
}
type ChanData struct {
	buf    []Value
	cap    int
	closed bool
	zero   Value
	vc     VC   // clock released by close/send
	bufvc  []VC // clock of each buffered element
}
type RangeIter struct {
	m   int32
	i   int
	str *Str
}

type token_ struct{ _ int }

type Obj struct {
	tok   *token_
	slots []Value
	mp    *MapData
	ch    *ChanData
	sh    []shadow // race shadow state, nil until threads exist
	born  int32    // thread that allocated it
	mu    *muState
	bytes bool
}

// Fn is a function compiled for one worker.
type Fn struct {
	ssa     *ssa.Function
	name    string
	blocks  []*Block
	nregs   int
	params  int
	intr    func(st *State, in *Instr, args []Value) Value
	ready   bool
	repo    bool
	recov   int // index of the recover block or -1
	res     *types.Tuple
	entered bool
}
type Block struct {
	ins   []Instr
	phis  []phi
	idx   int
	succ  []int
	preds []int
}
type phi struct {
	dst   int32
	edges []Opnd
}
type Opnd struct {
	reg int32 // -1: constant
	k   Value
}
type Instr struct {
	in      ssa.Instruction
	op      uint8
	dst     int32
	x, y, z Opnd
	args    []Opnd
	n, m, o int32
	w       uint8
	sg      bool
	t       types.Type
	fn      *Fn
	aux     any
}

type Frame struct {
	fn        *Fn
	regs      []Value
	blk       *Block
	ip        int
	dst       int32
	discard   bool
	isDefer   bool // called by the defer machinery
	defers    []deferred
	unwinding bool // frame is being unwound by a panic
	recovered bool
}
type deferred struct {
	fn   *Closure
	bi   string
	args []Value
}
