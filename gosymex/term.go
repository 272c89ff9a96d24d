package main

import (
	"fmt"
	"math"
	"math/bits"
)

// Terms: hash-consed bit-vector/boolean expressions. w==0 is Bool.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OULt
	OULe
	OSLt
	OSLe
	OZext
	OSext
	OExtract // k = lo ; width = w
	OConcat
	// floating point over IEEE bit patterns (width 64 or 32)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFNaN
	OFInf
	OFFromS // signed int -> float (w = target width)
	OFFromU
	OFToS // float -> signed int (RTZ)
	OFToF // float width conversion
)

type Term struct {
	id      int32
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	// evaluation cache
	ev    uint64
	evEp  uint32
	smtEp uint32 // solver epoch in which it was defined
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermTab struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	nextID int32
	True   *Term
	False  *Term
	epoch  uint32
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	t.nextID = 1
	t.True = t.mk(OConst, 0, nil, nil, nil, 1)
	t.False = t.mk(OConst, 0, nil, nil, nil, 0)
	t.epoch = 1
	return t
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{id: tt.nextID, op: op, w: w, a: a, b: b, c: c, k: k}
	tt.nextID++
	tt.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) Const(v uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}
func (tt *TermTab) Var(name string, w uint8) *Term {
	if t, ok := tt.vars[name]; ok {
		if t.w != w {
			panic("var redeclared with other width: " + name)
		}
		return t
	}
	t := &Term{id: tt.nextID, op: OVar, w: w, name: name}
	tt.nextID++
	tt.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tt *TermTab) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tt.Bool(a.k == 0)
	case ONot:
		return a.a
	}
	return tt.mk(ONot, 0, a, nil, nil, 0)
}

func (tt *TermTab) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.False
	}
	return tt.mk(OAnd, 0, a, b, nil, 0)
}

func (tt *TermTab) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tt.True
	}
	return tt.mk(OOr, 0, a, b, nil, 0)
}

// upper bound of an unsigned term (cheap)
func (t *Term) umax() uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return t.a.umax()
	case OIte:
		x, y := t.b.umax(), t.c.umax()
		if x > y {
			return x
		}
		return y
	case OBAnd:
		x, y := t.a.umax(), t.b.umax()
		if x < y {
			return x
		}
		return y
	case OURem:
		if t.b.isConst() && t.b.k > 0 {
			return t.b.k - 1
		}
	case OLShr:
		if t.b.isConst() && t.b.k < 64 {
			return t.a.umax() >> t.b.k
		}
	}
	return mask(t.w)
}

func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		return tt.Bool(a.k == b.k)
	}
	if b.isConst() {
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return tt.Not(a)
		}
		switch a.op {
		case OZext:
			if b.k > mask(a.a.w) {
				return tt.False
			}
			return tt.Eq(a.a, tt.Const(b.k, a.a.w))
		case OSext:
			low := b.k & mask(a.a.w)
			if uint64(sext64(low, a.a.w))&mask(a.w) != b.k {
				return tt.False
			}
			return tt.Eq(a.a, tt.Const(low, a.a.w))
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				x, y := tt.Eq(a.b, b), tt.Eq(a.c, b)
				if x.isConst() || y.isConst() {
					return tt.IteB(a.a, x, y)
				}
			}
		case OAdd:
			if a.b.isConst() {
				return tt.Eq(a.a, tt.Const(b.k-a.b.k, a.w))
			}
		case OConcat:
			hi := b.k >> a.b.w
			return tt.And(tt.Eq(a.a, tt.Const(hi, a.a.w)), tt.Eq(a.b, tt.Const(b.k, a.b.w)))
		}
		if b.k > a.umax() {
			return tt.False
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	return tt.mk(OEq, 0, a, b, nil, 0)
}

func (tt *TermTab) IteB(c, a, b *Term) *Term {
	return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if b.isConst() {
			if b.k == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	if c.op == ONot {
		return tt.Ite(c.a, b, a)
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

func evalBV(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		sx := sext64(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(sx>>y) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	}
	return 0, false
}

func (tt *TermTab) BV(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		v, ok := evalBV(op, w, a.k, b.k)
		if ok {
			return tt.Const(v, w)
		}
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return tt.Const(0, w)
		}
		if b.isConst() {
			return tt.BV(OAdd, a, tt.Const(-b.k, w))
		}
		// (x + c) - x => c ; (x+c)-(x+d)
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb {
			return tt.Const(ac-bc, w)
		}
	}
	if b.isConst() {
		switch op {
		case OAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tt.BV(OAdd, a.a, tt.Const(a.b.k+b.k, w))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tt.Ite(a.a, tt.Const(a.b.k+b.k, w), tt.Const(a.c.k+b.k, w))
			}
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OShl, OLShr, OAShr:
			if b.k == 0 {
				return a
			}
			if op == OLShr && b.k >= uint64(w) {
				return tt.Const(0, w)
			}
			if op == OShl && b.k >= uint64(w) {
				return tt.Const(0, w)
			}
			if op == OShl && b.k > 0 {
				// low bits zero: concat(extract, 0)
				return tt.Concat(tt.Extract(a, 0, w-uint8(b.k)), tt.Const(0, uint8(b.k)))
			}
			if op == OLShr {
				return tt.Zext(tt.Extract(a, uint8(b.k), w-uint8(b.k)), w)
			}
		case OBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			// low mask => zext(extract)
			if b.k&(b.k+1) == 0 {
				n := uint8(bits.Len64(b.k))
				return tt.Zext(tt.Extract(a, 0, n), w)
			}
		case OBOr, OBXor:
			if b.k == 0 {
				return a
			}
		case OUDiv:
			if b.k == 1 {
				return a
			}
		}
	}
	if op == OBOr || op == OBXor || op == OAdd {
		// disjoint concat merging: zext(x) | (y << n)
		if r := tt.mergeDisjoint(a, b); r != nil {
			return r
		}
	}
	if a == b {
		switch op {
		case OBAnd, OBOr:
			return a
		case OBXor:
			return tt.Const(0, w)
		}
	}
	return tt.mk(op, w, a, b, nil, 0)
}

// mergeDisjoint recognises (y ++ 0_n) | zext_n-or-less(x), the shape of big/little endian assembly.
func (tt *TermTab) mergeDisjoint(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		// a = [zext] concat(hi, const0 n)
		inner, w := a, a.w
		if inner.op == OZext {
			inner = inner.a
		}
		if inner.op == OConcat && inner.b.isConst() && inner.b.k == 0 {
			n := inner.b.w
			// b must fit into n low bits
			if b.op == OZext && b.a.w <= n {
				r := tt.Concat(inner.a, tt.Zext(b.a, n))
				return tt.Zext(r, w)
			}
			if b.op == OConst && b.k <= mask(n) {
				r := tt.Concat(inner.a, tt.Const(b.k, n))
				return tt.Zext(r, w)
			}
		}
		a, b = b, a
	}
	return nil
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OAdd && t.b.isConst() {
		return t.a, t.b.k
	}
	return t, 0
}

func (tt *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, a.w, a, nil, nil, 0)
}

func (tt *TermTab) Cmp(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return tt.Bool(cmpBV(op, w, a.k, b.k))
	}
	if a == b {
		return tt.Bool(op == OULe || op == OSLe)
	}
	// narrow zero-extended comparisons
	if op == OSLt || op == OSLe {
		am, bm := a.umax(), b.umax()
		half := uint64(1) << (w - 1)
		if am < half && bm < half {
			if op == OSLt {
				op = OULt
			} else {
				op = OULe
			}
		} else if a.isConst() && a.k >= half && bm < half {
			return tt.True
		} else if b.isConst() && b.k >= half && am < half {
			return tt.False
		}
	}
	if op == OULt || op == OULe {
		if b.isConst() {
			am := a.umax()
			if op == OULt && am < b.k || op == OULe && am <= b.k {
				return tt.True
			}
			if op == OULt && b.k == 0 {
				return tt.False
			}
		}
		if a.isConst() {
			bm := b.umax()
			if op == OULt && a.k >= bm || op == OULe && a.k > bm {
				return tt.False
			}
			if op == OULe && a.k == 0 {
				return tt.True
			}
		}
		if a.op == OZext && b.isConst() && b.k <= mask(a.a.w) {
			return tt.Cmp(op, a.a, tt.Const(b.k, a.a.w))
		}
		if b.op == OZext && a.isConst() && a.k <= mask(b.a.w) {
			return tt.Cmp(op, tt.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Cmp(op, a.a, b.a)
		}
	}
	return tt.mk(op, 0, a, b, nil, 0)
}

func cmpBV(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OULt:
		return x < y
	case OULe:
		return x <= y
	case OSLt:
		return sext64(x, w) < sext64(y, w)
	case OSLe:
		return sext64(x, w) <= sext64(y, w)
	}
	panic("cmp")
}

func (tt *TermTab) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(a.k, w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, a, nil, nil, 0)
}
func (tt *TermTab) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tt.Const(uint64(sext64(a.k, a.w)), w)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OSext, w, a, nil, nil, 0)
}
func (tt *TermTab) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	switch a.op {
	case OConst:
		return tt.Const(a.k>>lo, w)
	case OZext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
		if lo >= a.a.w {
			return tt.Const(0, w)
		}
		return tt.Zext(tt.Extract(a.a, lo, a.a.w-lo), w)
	case OSext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
	case OExtract:
		return tt.Extract(a.a, lo+uint8(a.k), w)
	case OConcat:
		if lo+w <= a.b.w {
			return tt.Extract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return tt.Extract(a.a, lo-a.b.w, w)
		}
		// spans
		return tt.Concat(tt.Extract(a.a, 0, w-(a.b.w-lo)), tt.Extract(a.b, lo, a.b.w-lo))
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return tt.BV(a.op, tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tt.BV(a.op, tt.Extract(a.a, 0, w), tt.Extract(a.b, 0, w))
		}
	}
	return tt.mk(OExtract, w, a, nil, nil, uint64(lo))
}
func (tt *TermTab) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() {
		return tt.Const(hi.k<<lo.w|lo.k, w)
	}
	if hi.isConst() && hi.k == 0 {
		return tt.Zext(lo, w)
	}
	// adjacent extracts of the same term
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.k == lo.k+uint64(lo.w) {
		return tt.Extract(hi.a, uint8(lo.k), w)
	}
	if lo.op == OConcat && hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a && hi.k == lo.a.k+uint64(lo.a.w) {
		return tt.Concat(tt.Extract(hi.a, uint8(lo.a.k), hi.w+lo.a.w), lo.b)
	}
	return tt.mk(OConcat, w, hi, lo, nil, 0)
}

func (tt *TermTab) F(op Op, w uint8, a, b *Term) *Term {
	t := &Term{op: op, w: w, a: a, b: b}
	if a.isConst() && (b == nil || b.isConst()) {
		var y uint64
		if b != nil {
			y = b.k
		}
		if v, ok := evalF(op, w, a.w, a.k, y); ok {
			return tt.Const(v, w)
		}
	}
	_ = t
	return tt.mk(op, w, a, b, nil, 0)
}

func toF(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fromF(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	if f != f {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalF(op Op, w, aw uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OFAdd:
		return fromF(toF(x, aw)+toF(y, aw), w), true
	case OFSub:
		return fromF(toF(x, aw)-toF(y, aw), w), true
	case OFMul:
		return fromF(toF(x, aw)*toF(y, aw), w), true
	case OFDiv:
		return fromF(toF(x, aw)/toF(y, aw), w), true
	case OFLt:
		return b2u(toF(x, aw) < toF(y, aw)), true
	case OFLe:
		return b2u(toF(x, aw) <= toF(y, aw)), true
	case OFEq:
		return b2u(toF(x, aw) == toF(y, aw)), true
	case OFNaN:
		f := toF(x, aw)
		return b2u(f != f), true
	case OFInf:
		return b2u(math.IsInf(toF(x, aw), 0)), true
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sext64(x, aw)))), true
		}
		return fromF(float64(sext64(x, aw)), w), true
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return fromF(float64(x), w), true
	case OFToS:
		return uint64(int64(toF(x, aw))) & mask(w), true
	case OFToF:
		return fromF(toF(x, aw), w), true
	}
	return 0, false
}

// Model: assignment of variables (missing = 0)
type Model map[string]uint64

func (tt *TermTab) NewEpoch() { tt.epoch++ }

func (tt *TermTab) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evEp == tt.epoch {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t.name] & mask(t.w)
	case ONot:
		v = 1 - tt.Eval(t.a, m)
	case OAnd:
		if tt.Eval(t.a, m) == 0 {
			v = 0
		} else {
			v = tt.Eval(t.b, m)
		}
	case OOr:
		if tt.Eval(t.a, m) == 1 {
			v = 1
		} else {
			v = tt.Eval(t.b, m)
		}
	case OEq:
		v = b2u(tt.Eval(t.a, m) == tt.Eval(t.b, m))
	case OIte:
		if tt.Eval(t.a, m) == 1 {
			v = tt.Eval(t.b, m)
		} else {
			v = tt.Eval(t.c, m)
		}
	case OBNot:
		v = ^tt.Eval(t.a, m) & mask(t.w)
	case OULt, OULe, OSLt, OSLe:
		v = b2u(cmpBV(t.op, t.a.w, tt.Eval(t.a, m), tt.Eval(t.b, m)))
	case OZext:
		v = tt.Eval(t.a, m)
	case OSext:
		v = uint64(sext64(tt.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OExtract:
		v = tt.Eval(t.a, m) >> t.k & mask(t.w)
	case OConcat:
		v = tt.Eval(t.a, m)<<t.b.w | tt.Eval(t.b, m)
	default:
		if t.op >= OFAdd {
			var y uint64
			if t.b != nil {
				y = tt.Eval(t.b, m)
			}
			v, _ = evalF(t.op, t.w, t.a.w, tt.Eval(t.a, m), y)
		} else {
			var ok bool
			v, ok = evalBV(t.op, t.w, tt.Eval(t.a, m), tt.Eval(t.b, m))
			if !ok {
				panic(fmt.Sprint("eval op ", t.op))
			}
		}
	}
	t.ev = v
	t.evEp = tt.epoch
	return v
}
