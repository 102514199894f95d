package main

import (
	"fmt"
	"strings"
)

// Expr is a hash-consed bit-vector (w>0) or boolean (w==0) term.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low w bits
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBAnd
	OBOr
	OBNot
)

type Expr struct {
	op      Op
	w       uint8
	c       uint64 // constant value or variable index
	a, b, d *Expr
	id      uint32
	size    uint32
	defined uint32 // solver generation in which a define-fun was emitted
	seen    uint64 // evaluation stamp
	val     uint64
	vars    uint64 // variables occurring (bit 63: any beyond the first 63)
	ts      *dset  // truth set of a condition over one variable
}

type ekey struct {
	op      Op
	w       uint8
	c       uint64
	a, b, d *Expr
}

// Ctx owns one worker's terms.
type Ctx struct {
	tab    map[ekey]*Expr
	small  [65][]*Expr
	True   *Expr
	False  *Expr
	vars   []*Expr
	nextID uint32
	stamp  uint64
}

func NewCtx() *Ctx {
	x := &Ctx{tab: map[ekey]*Expr{}}
	x.False = x.mk(OConst, 0, 0, nil, nil, nil)
	x.True = x.mk(OConst, 0, 1, nil, nil, nil)
	for _, w := range []int{8, 16, 32, 64} {
		x.small[w] = make([]*Expr, 1024)
		for i := range x.small[w] {
			if w == 8 && i > 255 {
				break
			}
			x.small[w][i] = x.mk(OConst, uint8(w), uint64(i), nil, nil, nil)
		}
	}
	return x
}

func (x *Ctx) mk(op Op, w uint8, c uint64, a, b, d *Expr) *Expr {
	k := ekey{op, w, c, a, b, d}
	if e, ok := x.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, c: c, a: a, b: b, d: d, id: x.nextID, size: 1}
	x.nextID++
	if op == OVar {
		e.vars = 1 << min(c, 63)
	}
	for _, s := range [3]*Expr{a, b, d} {
		if s != nil {
			e.vars |= s.vars
			if e.size += s.size; e.size > 1<<20 {
				e.size = 1 << 20
			}
		}
	}
	x.tab[k] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (x *Ctx) Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if s := x.small[w]; s != nil && v < uint64(len(s)) {
		return s[v]
	}
	return x.mk(OConst, w, v, nil, nil, nil)
}
func (x *Ctx) Bool(b bool) *Expr {
	if b {
		return x.True
	}
	return x.False
}

// Var returns the i-th symbolic variable of the given width.
func (x *Ctx) Var(i int, w uint8) *Expr {
	for len(x.vars) <= i {
		x.vars = append(x.vars, nil)
	}
	e := x.mk(OVar, w, uint64(i), nil, nil, nil)
	x.vars[i] = e
	return e
}

func (e *Expr) isC() bool { return e.op == OConst }

func foldBin(op Op, w uint8, a, b uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1, true
			}
			return m, true
		}
		if sb == -1 {
			return uint64(-sa) & m, true
		}
		return uint64(sa/sb) & m, true
	case OSRem:
		sa, sb := sx(a, w), sx(b, w)
		if sb == 0 {
			return a, true
		}
		if sb == -1 {
			return 0, true
		}
		return uint64(sa%sb) & m, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m, true
	}
	return 0, false
}

// Bin builds a bit-vector operation.
func (x *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isC() && b.isC() {
		v, _ := foldBin(op, w, a.c, b.c)
		return x.Const(w, v)
	}
	switch op {
	case OAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return a
		}
		if b.isC() && a.op == OAdd && a.b.isC() {
			return x.Bin(OAdd, a.a, x.Const(w, a.b.c+b.c))
		}
	case OSub:
		if a == b {
			return x.Const(w, 0)
		}
		if b.isC() {
			return x.Bin(OAdd, a, x.Const(w, -b.c))
		}
	case OAnd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return b
		}
		if b.isC() && b.c == mask(w) || a == b {
			return a
		}
	case OOr, OXor:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return a
		}
		if op == OOr && a == b {
			return a
		}
	case OMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() && b.c == 0 {
			return b
		}
		if b.isC() && b.c == 1 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.isC() && b.c == 0 {
			return a
		}
	}
	// push constants into ite with constant leaves
	if a.op == OIte && b.isC() && a.b.isC() {
		return x.Ite(a.a, x.Bin(op, a.b, b), x.Bin(op, a.d, b))
	}
	return x.mk(op, w, 0, a, b, nil)
}

func (x *Ctx) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.Const(w, a.c)
	}
	if a.op == OZext {
		return x.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isC() {
		return x.Ite(a.a, x.Zext(a.b, w), x.Zext(a.d, w))
	}
	return x.mk(OZext, w, 0, a, nil, nil)
}
func (x *Ctx) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.Const(w, uint64(sx(a.c, a.w)))
	}
	if a.op == OZext {
		return x.Zext(a.a, w)
	}
	return x.mk(OSext, w, 0, a, nil, nil)
}
func (x *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return x.Const(w, a.c)
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return x.Trunc(a.a, w)
		}
		if a.op == OZext {
			return x.Zext(a.a, w)
		}
		return x.Sext(a.a, w)
	}
	if a.op == OIte && a.b.isC() {
		return x.Ite(a.a, x.Trunc(a.b, w), x.Trunc(a.d, w))
	}
	return x.mk(OExtract, w, 0, a, nil, nil)
}

func (x *Ctx) Not(a *Expr) *Expr {
	if a.isC() {
		return x.Bool(a.c == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return x.mk(OBNot, 0, 0, a, nil, nil)
}
func (x *Ctx) And(a, b *Expr) *Expr {
	if a.isC() {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == x.Not(b) {
		return x.False
	}
	return x.mk(OBAnd, 0, 0, a, b, nil)
}
func (x *Ctx) Or(a, b *Expr) *Expr {
	if a.isC() {
		if a.c == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.c == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == x.Not(b) {
		return x.True
	}
	return x.mk(OBOr, 0, 0, a, b, nil)
}

func (x *Ctx) Ite(c, a, b *Expr) *Expr {
	if c.isC() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		switch {
		case a.isC() && a.c == 1:
			return x.Or(c, b)
		case a.isC():
			return x.And(x.Not(c), b)
		case b.isC() && b.c == 1:
			return x.Or(x.Not(c), a)
		case b.isC():
			return x.And(c, a)
		}
	}
	if c.op == OBNot {
		return x.mk(OIte, a.w, 0, c.a, b, a)
	}
	return x.mk(OIte, a.w, 0, c, a, b)
}

func (x *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return x.True
	}
	if a.isC() && b.isC() {
		return x.Bool(a.c == b.c)
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.c == 1 {
				return a
			}
			return x.Not(a)
		}
		return x.Or(x.And(a, b), x.And(x.Not(a), x.Not(b)))
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		switch a.op {
		case OZext:
			if b.c > mask(a.a.w) {
				return x.False
			}
			return x.Eq(a.a, x.Const(a.a.w, b.c))
		case OAdd:
			if a.b.isC() {
				return x.Eq(a.a, x.Const(a.w, b.c-a.b.c))
			}
		case OIte:
			if a.b.isC() || a.d.isC() {
				return x.Ite(a.a, x.Eq(a.b, b), x.Eq(a.d, b))
			}
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return x.Eq(a.a, b.a)
	} else if a.id > b.id {
		a, b = b, a
	}
	return x.mk(OEq, 0, 0, a, b, nil)
}

func (x *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return x.False
	}
	if a.isC() && b.isC() {
		return x.Bool(a.c < b.c)
	}
	if b.isC() && b.c == 0 {
		return x.False
	}
	if a.isC() && a.c == mask(a.w) {
		return x.False
	}
	if a.op == OZext && b.isC() {
		if b.c > mask(a.a.w) {
			return x.True
		}
		return x.Ult(a.a, x.Const(a.a.w, b.c))
	}
	if b.op == OZext && a.isC() {
		if a.c >= mask(b.a.w) {
			return x.False
		}
		return x.Ult(x.Const(b.a.w, a.c), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return x.Ult(a.a, b.a)
	}
	if a.op == OIte && b.isC() && (a.b.isC() || a.d.isC()) {
		return x.Ite(a.a, x.Ult(a.b, b), x.Ult(a.d, b))
	}
	if b.op == OIte && a.isC() && (b.b.isC() || b.d.isC()) {
		return x.Ite(b.a, x.Ult(a, b.b), x.Ult(a, b.d))
	}
	return x.mk(OUlt, 0, 0, a, b, nil)
}
func (x *Ctx) Ule(a, b *Expr) *Expr { return x.Not(x.Ult(b, a)) }

// nonneg reports whether the sign bit of a is known to be clear.
func nonneg(a *Expr) bool {
	switch a.op {
	case OConst:
		return sx(a.c, a.w) >= 0
	case OZext:
		return true
	case OIte:
		return nonneg(a.b) && nonneg(a.d)
	}
	return false
}

func (x *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return x.False
	}
	if a.isC() && b.isC() {
		return x.Bool(sx(a.c, a.w) < sx(b.c, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return x.Ult(a, b)
	}
	if nonneg(a) && b.isC() { // b negative
		return x.False
	}
	if nonneg(b) && a.isC() {
		return x.True
	}
	if a.op == OIte && b.isC() && (a.b.isC() || a.d.isC()) {
		return x.Ite(a.a, x.Slt(a.b, b), x.Slt(a.d, b))
	}
	if b.op == OIte && a.isC() && (b.b.isC() || b.d.isC()) {
		return x.Ite(b.a, x.Slt(a, b.b), x.Slt(a, b.d))
	}
	return x.mk(OSlt, 0, 0, a, b, nil)
}
func (x *Ctx) Sle(a, b *Expr) *Expr { return x.Not(x.Slt(b, a)) }

// Model maps variable index to value.
type Model []uint64

// Eval evaluates e under m (missing variables are 0).
func (x *Ctx) Eval(e *Expr, m Model) uint64 {
	x.stamp++
	return x.eval(e, m)
}
func (x *Ctx) eval(e *Expr, m Model) uint64 {
	if e.op == OConst {
		return e.c
	}
	if e.op == OVar {
		if int(e.c) < len(m) {
			return m[e.c] & mask(e.w)
		}
		return 0
	}
	if e.seen == x.stamp {
		return e.val
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OZext:
		r = x.eval(e.a, m)
	case OSext:
		r = uint64(sx(x.eval(e.a, m), e.a.w)) & mask(e.w)
	case OExtract:
		r = x.eval(e.a, m) & mask(e.w)
	case OEq:
		r = b2u(x.eval(e.a, m) == x.eval(e.b, m))
	case OUlt:
		r = b2u(x.eval(e.a, m) < x.eval(e.b, m))
	case OSlt:
		r = b2u(sx(x.eval(e.a, m), e.a.w) < sx(x.eval(e.b, m), e.b.w))
	case OIte:
		if x.eval(e.a, m) == 1 {
			r = x.eval(e.b, m)
		} else {
			r = x.eval(e.d, m)
		}
	case OBAnd:
		r = x.eval(e.a, m)
		if r == 1 {
			r = x.eval(e.b, m)
		}
	case OBOr:
		r = x.eval(e.a, m)
		if r == 0 {
			r = x.eval(e.b, m)
		}
	case OBNot:
		r = 1 - x.eval(e.a, m)
	default:
		r, _ = foldBin(e.op, e.w, x.eval(e.a, m), x.eval(e.b, m))
	}
	e.seen = x.stamp
	e.val = r
	return r
}

var smtName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OIte: "ite", OBAnd: "and", OBOr: "or", OBNot: "not"}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smt writes e; sub-terms named through def (define-fun) when large.
func (e *Expr) smt(sb *strings.Builder, name func(*Expr) (string, bool)) {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", e.c, e.w)
		return
	case OVar:
		fmt.Fprintf(sb, "v%d", e.c)
		return
	}
	if n, ok := name(e); ok {
		sb.WriteString(n)
		return
	}
	e.smtBody(sb, name)
}
func (e *Expr) smtBody(sb *strings.Builder, name func(*Expr) (string, bool)) {
	sb.WriteByte('(')
	switch e.op {
	case OZext:
		fmt.Fprintf(sb, "(_ zero_extend %d) ", e.w-e.a.w)
	case OSext:
		fmt.Fprintf(sb, "(_ sign_extend %d) ", e.w-e.a.w)
	case OExtract:
		fmt.Fprintf(sb, "(_ extract %d 0) ", e.w-1)
	default:
		sb.WriteString(smtName[e.op])
		sb.WriteByte(' ')
	}
	e.a.smt(sb, name)
	if e.b != nil {
		sb.WriteByte(' ')
		e.b.smt(sb, name)
	}
	if e.d != nil {
		sb.WriteByte(' ')
		e.d.smt(sb, name)
	}
	sb.WriteByte(')')
}
