package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	iBin uint8 = iota
	iAlloc
	iLoad
	iNeg
	iNot
	iCompl
	iRecv
	iCall
	iInvoke
	iBuiltin
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iUnsupported
)

// Prog holds a worker's compiled view of the program.
type Prog struct {
	P       *ssa.Program
	x       *Ctx
	fns     map[*ssa.Function]*Fn
	canonM  typeutil.Map
	canonC  map[types.Type]types.Type
	slotC   map[types.Type]int32
	offC    map[*types.Struct][]int32
	globals map[*ssa.Global]int32 // object id
	gobjs   []*ssa.Global
	methC   map[methKey]*Fn
	repoPkg string
	harnPkg string
	implC   map[[2]types.Type]bool
	zeroC   map[types.Type][]Value
}
type methKey struct {
	t types.Type
	m string
	p *types.Package
}

func NewProg(p *ssa.Program, x *Ctx, repoPkg, harnPkg string) *Prog {
	return &Prog{P: p, x: x, fns: map[*ssa.Function]*Fn{}, canonC: map[types.Type]types.Type{},
		slotC: map[types.Type]int32{}, offC: map[*types.Struct][]int32{}, globals: map[*ssa.Global]int32{},
		methC: map[methKey]*Fn{}, repoPkg: repoPkg, harnPkg: harnPkg, implC: map[[2]types.Type]bool{}, zeroC: map[types.Type][]Value{}}
}

func (p *Prog) canon(t types.Type) types.Type {
	if c, ok := p.canonC[t]; ok {
		return c
	}
	u := types.Unalias(t)
	c, ok := p.canonM.At(u).(types.Type)
	if !ok {
		p.canonM.Set(u, u)
		c = u
	}
	p.canonC[t] = c
	return c
}

func (p *Prog) slots(t types.Type) int32 {
	if n, ok := p.slotC[t]; ok {
		return n
	}
	var n int32
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += p.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int32(u.Len()) * p.slots(u.Elem())
	default:
		n = 1
	}
	p.slotC[t] = n
	return n
}

func (p *Prog) fieldOff(s *types.Struct, i int) int32 {
	o, ok := p.offC[s]
	if !ok {
		var n int32
		for j := 0; j < s.NumFields(); j++ {
			o = append(o, n)
			n += p.slots(s.Field(j).Type())
		}
		o = append(o, n)
		p.offC[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func basicWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

var nilClosure = (*Closure)(nil)

// zeroSlots returns the zero value of t as slots (shared; do not modify).
func (p *Prog) zeroSlots(t types.Type) []Value {
	if z, ok := p.zeroC[t]; ok {
		return z
	}
	var z []Value
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			z = append(z, p.zeroSlots(u.Field(i).Type())...)
		}
	case *types.Array:
		e := p.zeroSlots(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			z = append(z, e...)
		}
	case *types.Basic:
		if w, _, ok := basicWidth(u); ok {
			z = []Value{p.x.Const(w, 0)}
		} else if u.Info()&types.IsString != 0 {
			z = []Value{&Str{}}
		} else if u.Kind() == types.UnsafePointer {
			z = []Value{Ptr{}}
		} else if u.Info()&types.IsFloat != 0 {
			z = []Value{float64(0)}
		} else if u.Kind() == types.UntypedNil {
			z = []Value{Ptr{}}
		} else if u.Kind() == types.Invalid {
			z = []Value{nil}
		} else {
			z = []Value{unsupportedVal("zero of " + t.String())}
		}
	case *types.Pointer:
		z = []Value{Ptr{}}
	case *types.Slice:
		z = []Value{Slice{}}
	case *types.Map:
		z = []Value{MapRef{}}
	case *types.Chan:
		z = []Value{ChanRef{}}
	case *types.Signature:
		z = []Value{nilClosure}
	case *types.Interface:
		z = []Value{Iface{}}
	case *types.Tuple:
		return nil
	default:
		z = []Value{unsupportedVal("zero of " + t.String())}
	}
	p.zeroC[t] = z
	return z
}

type unsupportedVal string

func (p *Prog) zero(t types.Type) Value {
	if tp, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tp.Len(); i++ {
			r = append(r, p.zero(tp.At(i).Type()))
		}
		return r
	}
	z := p.zeroSlots(t)
	if isAgg(t) {
		return &Agg{z}
	}
	return z[0]
}

func (p *Prog) strConst(s string) *Str {
	b := make([]*Expr, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = p.x.Const(8, uint64(s[i]))
	}
	return &Str{b}
}

func (p *Prog) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if tp, ok := t.Underlying().(*types.Basic); ok {
		if w, _, ok := basicWidth(tp); ok {
			if w == 0 {
				return p.x.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return p.x.Const(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return p.x.Const(w, u)
		}
		if tp.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return p.strConst(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return p.strConst(string(rune(i)))
		}
		if tp.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			if tp.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	return unsupportedVal("const " + c.String())
}

func (p *Prog) globalObj(g *ssa.Global) int32 {
	if id, ok := p.globals[g]; ok {
		return id
	}
	// object ids 1..maxGlobals are reserved for globals, allocated lazily
	id := int32(len(p.gobjs) + 1)
	if id >= maxGlobals {
		fatal("too many globals")
	}
	p.gobjs = append(p.gobjs, g)
	p.globals[g] = id
	return id
}

const maxGlobals = 768

func (p *Prog) fn(f *ssa.Function) *Fn {
	if r, ok := p.fns[f]; ok {
		return r
	}
	r := &Fn{ssa: f, name: f.String(), recov: -1, params: len(f.Params)}
	if o := f.Origin(); o != nil {
		if in := lookupIntrinsic(o.String()); in != nil {
			r.intr = in
		}
	}
	if in := lookupIntrinsic(r.name); in != nil {
		r.intr = in
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Parent() != nil {
		q := f.Parent()
		for q.Parent() != nil {
			q = q.Parent()
		}
		pk = q.Pkg
		if pk == nil && q.Origin() != nil {
			pk = q.Origin().Pkg
		}
	}
	if pk != nil {
		r.repo = pk.Pkg.Path() == p.repoPkg
		if r.intr == nil {
			r.intr = pkgIntrinsic(pk.Pkg.Path(), f)
		}
	}
	p.fns[f] = r
	return r
}

func (p *Prog) ensure(r *Fn) {
	if r.ready {
		return
	}
	r.ready = true
	f := r.ssa
	r.res = f.Signature.Results()
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, v := range f.Params {
		regs[v] = n
		n++
	}
	for _, v := range f.FreeVars {
		regs[v] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	r.nregs = int(n)
	op := func(v ssa.Value) Opnd {
		if v == nil {
			return Opnd{-1, nil}
		}
		if i, ok := regs[v]; ok {
			return Opnd{i, nil}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return Opnd{-1, p.constVal(v)}
		case *ssa.Global:
			return Opnd{-1, Ptr{p.globalObj(v), 0}}
		case *ssa.Function:
			return Opnd{-1, &Closure{fn: p.fn(v)}}
		case *ssa.Builtin:
			return Opnd{-1, v}
		}
		return Opnd{-1, unsupportedVal(fmt.Sprintf("operand %T", v))}
	}
	for i, b := range f.Blocks {
		blk := &Block{idx: i}
		for _, s := range b.Succs {
			blk.succ = append(blk.succ, s.Index)
		}
		for _, s := range b.Preds {
			blk.preds = append(blk.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				q := phi{dst: regs[ph]}
				for _, e := range ph.Edges {
					q.edges = append(q.edges, op(e))
				}
				blk.phis = append(blk.phis, q)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			I := p.compile(in, regs, op)
			blk.ins = append(blk.ins, I)
		}
		r.blocks = append(r.blocks, blk)
	}
	if f.Recover != nil {
		r.recov = f.Recover.Index
	}
}

func (p *Prog) callInstr(I *Instr, c *ssa.CallCommon, op func(ssa.Value) Opnd) {
	for _, a := range c.Args {
		I.args = append(I.args, op(a))
	}
	if c.IsInvoke() {
		I.op = iInvoke
		I.x = op(c.Value)
		I.aux = c.Method
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		I.op = iBuiltin
		I.aux = b.Name()
		if len(c.Args) > 0 {
			I.t = c.Args[0].Type()
			if tp, ok := I.t.Underlying().(*types.Slice); ok {
				I.n = p.slots(tp.Elem())
			}
		}
		return
	}
	I.op = iCall
	if f, ok := c.Value.(*ssa.Function); ok {
		I.fn = p.fn(f)
	} else {
		I.x = op(c.Value)
	}
}

func (p *Prog) compile(in ssa.Instruction, regs map[ssa.Value]int32, op func(ssa.Value) Opnd) Instr {
	I := Instr{in: in, dst: -1}
	if v, ok := in.(ssa.Value); ok {
		I.dst = regs[v]
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		I.op = iAlloc
		I.t = v.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		I.op = iBin
		I.x, I.y = op(v.X), op(v.Y)
		I.n = int32(v.Op)
		I.t = v.X.Type()
		if b, ok := I.t.Underlying().(*types.Basic); ok {
			w, sg, ok := basicWidth(b)
			if ok {
				I.w, I.sg = w, sg
				I.m = 1 // integer/bool
				if w == 0 {
					I.m = 5
				}
			} else if b.Info()&types.IsString != 0 {
				I.m = 2
			} else if b.Info()&types.IsFloat != 0 {
				I.m = 3
			}
		}
		if v.Op == token.SHL || v.Op == token.SHR {
			I.m = 4
			if b, ok := v.Y.Type().Underlying().(*types.Basic); ok {
				_, s, _ := basicWidth(b)
				if s {
					I.o = 1
				}
			}
		}
	case *ssa.UnOp:
		I.x = op(v.X)
		I.t = v.Type()
		switch v.Op {
		case token.MUL:
			I.op = iLoad
			I.n = p.slots(v.Type())
			if isAgg(v.Type()) {
				I.m = 1
			}
		case token.SUB:
			I.op = iNeg
		case token.NOT:
			I.op = iNot
		case token.XOR:
			I.op = iCompl
		case token.ARROW:
			I.op = iRecv
			if v.CommaOk {
				I.m = 1
			}
		default:
			I.op = iUnsupported
		}
	case *ssa.Call:
		p.callInstr(&I, &v.Call, op)
		I.t = firstNonNil(I.t, v.Type())
	case *ssa.Defer:
		p.callInstr(&I, &v.Call, op)
		I.m = int32(I.op)
		I.op = iDefer
	case *ssa.Go:
		p.callInstr(&I, &v.Call, op)
		I.m = int32(I.op)
		I.op = iGo
	case *ssa.ChangeInterface:
		I.op = iMove
		I.x = op(v.X)
	case *ssa.ChangeType:
		I.op = iMove
		I.x = op(v.X)
	case *ssa.Convert:
		I.op = iConvert
		I.x = op(v.X)
		I.t = v.Type()
		I.aux = v.X.Type()
		p.compileConvert(&I, v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		I.op = iConvert
		I.x = op(v.X)
		I.t = v.Type()
		p.compileConvert(&I, v.X.Type(), v.Type())
	case *ssa.Extract:
		I.op = iExtract
		I.x = op(v.Tuple)
		I.n = int32(v.Index)
	case *ssa.Field:
		I.op = iField
		I.x = op(v.X)
		s := v.X.Type().Underlying().(*types.Struct)
		I.n = p.fieldOff(s, v.Field)
		I.o = p.slots(s.Field(v.Field).Type())
		if isAgg(v.Type()) {
			I.m = 1
		}
	case *ssa.FieldAddr:
		I.op = iFieldAddr
		I.x = op(v.X)
		s := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		I.n = p.fieldOff(s, v.Field)
	case *ssa.If:
		I.op = iIf
		I.x = op(v.Cond)
	case *ssa.Index:
		I.op = iIndex
		I.x, I.y = op(v.X), op(v.Index)
		I.t = v.X.Type()
		I.n = p.slots(v.Type())
		if isAgg(v.Type()) {
			I.m = 1
		}
		I.sg = signedT(v.Index.Type())
	case *ssa.IndexAddr:
		I.op = iIndexAddr
		I.x, I.y = op(v.X), op(v.Index)
		I.n = p.slots(v.Type().Underlying().(*types.Pointer).Elem())
		I.sg = signedT(v.Index.Type())
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			I.m = int32(pt.Elem().Underlying().(*types.Array).Len()) + 1
		}
	case *ssa.Jump:
		I.op = iJump
	case *ssa.Lookup:
		I.op = iLookup
		I.x, I.y = op(v.X), op(v.Index)
		I.t = v.X.Type()
		if v.CommaOk {
			I.m = 1
		}
		I.sg = signedT(v.Index.Type())
	case *ssa.MakeChan:
		I.op = iMakeChan
		I.x = op(v.Size)
		I.t = v.Type().Underlying().(*types.Chan).Elem()
	case *ssa.MakeClosure:
		I.op = iMakeClosure
		I.fn = p.fn(v.Fn.(*ssa.Function))
		for _, b := range v.Bindings {
			I.args = append(I.args, op(b))
		}
	case *ssa.MakeInterface:
		I.op = iMakeIface
		I.x = op(v.X)
		I.t = p.canon(v.X.Type())
	case *ssa.MakeMap:
		I.op = iMakeMap
	case *ssa.MakeSlice:
		I.op = iMakeSlice
		I.x, I.y = op(v.Len), op(v.Cap)
		I.t = v.Type().Underlying().(*types.Slice).Elem()
	case *ssa.MapUpdate:
		I.op = iMapUpdate
		I.x, I.y, I.z = op(v.Map), op(v.Key), op(v.Value)
	case *ssa.Next:
		I.op = iNext
		I.x = op(v.Iter)
		if v.IsString {
			I.m = 1
		}
		I.t = v.Type()
	case *ssa.Panic:
		I.op = iPanic
		I.x = op(v.X)
	case *ssa.Range:
		I.op = iRange
		I.x = op(v.X)
	case *ssa.Return:
		I.op = iReturn
		for _, r := range v.Results {
			I.args = append(I.args, op(r))
		}
	case *ssa.RunDefers:
		I.op = iRunDefers
	case *ssa.Select:
		I.op = iSelect
		for _, s := range v.States {
			I.args = append(I.args, op(s.Chan), op(s.Send))
		}
		I.aux = v
	case *ssa.Send:
		I.op = iSend
		I.x, I.y = op(v.Chan), op(v.X)
	case *ssa.Slice:
		I.op = iSlice
		I.x = op(v.X)
		I.args = []Opnd{op(v.Low), op(v.High), op(v.Max)}
		I.t = v.X.Type()
		switch u := I.t.Underlying().(type) {
		case *types.Slice:
			I.n = p.slots(u.Elem())
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			I.n = p.slots(a.Elem())
			I.m = int32(a.Len()) + 1
		case *types.Basic:
			I.m = -1
		}
	case *ssa.SliceToArrayPointer:
		I.op = iSliceToArr
		I.x = op(v.X)
		I.n = int32(v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.Store:
		I.op = iStore
		I.x, I.y = op(v.Addr), op(v.Val)
		I.n = p.slots(v.Val.Type())
		if isAgg(v.Val.Type()) {
			I.m = 1
		}
	case *ssa.TypeAssert:
		I.op = iTypeAssert
		I.x = op(v.X)
		I.t = p.canon(v.AssertedType)
		if v.CommaOk {
			I.m = 1
		}
		if types.IsInterface(v.AssertedType) {
			I.n = 1
		}
	default:
		I.op = iUnsupported
	}
	return I
}

func firstNonNil(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

func signedT(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, s, _ := basicWidth(b)
		return s
	}
	return true
}

const (
	cvInt = iota + 1
	cvIntFloat
	cvFloatInt
	cvFloatFloat
	cvBytesStr
	cvStrBytes
	cvIdent
	cvRuneStr
	cvStrRunes
	cvRunesStr
	cvPtrUint
	cvBad
)

func (p *Prog) compileConvert(I *Instr, from, to types.Type) {
	core := func(t types.Type) types.Type {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			return t
		}
		return t.Underlying()
	}
	f, t := core(from), core(to)
	fb, fok := f.(*types.Basic)
	tb, tok := t.(*types.Basic)
	I.m = cvBad
	isPtr := func(t types.Type) bool {
		if b, ok := t.(*types.Basic); ok {
			return b.Kind() == types.UnsafePointer
		}
		_, ok := t.(*types.Pointer)
		return ok
	}
	elemKind := func(t types.Type) types.BasicKind {
		if s, ok := t.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				return b.Kind()
			}
		}
		return types.Invalid
	}
	switch {
	case isPtr(f) && isPtr(t):
		I.m = cvIdent
	case fok && tok:
		fw, fs, fi := basicWidth(fb)
		tw, _, ti := basicWidth(tb)
		switch {
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			I.m = cvPtrUint
		case fi && ti:
			I.m, I.w, I.sg = cvInt, tw, fs
			_ = fw
		case fi && tb.Info()&types.IsFloat != 0:
			I.m, I.sg = cvIntFloat, fs
			if tb.Kind() == types.Float32 {
				I.n = 1
			}
		case fb.Info()&types.IsFloat != 0 && ti:
			I.m, I.w = cvFloatInt, tw
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			I.m = cvFloatFloat
			if tb.Kind() == types.Float32 {
				I.n = 1
			}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			I.m = cvIdent
		case fi && tb.Info()&types.IsString != 0:
			I.m = cvRuneStr
		}
	case fok && fb.Info()&types.IsString != 0 && elemKind(t) == types.Uint8:
		I.m = cvStrBytes
	case tok && tb.Info()&types.IsString != 0 && elemKind(f) == types.Uint8:
		I.m = cvBytesStr
	case fok && fb.Info()&types.IsString != 0 && elemKind(t) == types.Int32:
		I.m = cvStrRunes
	case tok && tb.Info()&types.IsString != 0 && elemKind(f) == types.Int32:
		I.m = cvRunesStr
	case types.Identical(f, t):
		I.m = cvIdent
	}
}

func (p *Prog) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.p = m.Pkg()
	}
	if f, ok := p.methC[k]; ok {
		return f
	}
	var r *Fn
	if f := p.P.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
		r = p.fn(f)
	}
	p.methC[k] = r
	return r
}

func (p *Prog) implements(t, iface types.Type) bool {
	k := [2]types.Type{t, iface}
	if r, ok := p.implC[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	p.implC[k] = r
	return r
}

var _ = math.Inf
var _ = strings.Contains
