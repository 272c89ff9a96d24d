package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) binop(in *ssa.BinOp, dst int) instrFn {
	m := c.m
	x, y := c.op(in.X), c.op(in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL:
		if w := m.width(t); w >= 0 && !isFloat(t) {
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				if a.R == nil && b.R == nil {
					fr.regs[dst] = bval(a.N == b.N)
					return
				}
				fr.regs[dst] = m.eq(t, a, b)
			}
		}
		return func(fr *Frame) { fr.regs[dst] = m.eqMixed(t, in.Y.Type(), x.get(fr), y.get(fr)) }
	case token.NEQ:
		return func(fr *Frame) { fr.regs[dst] = m.notVal(m.eqMixed(t, in.Y.Type(), x.get(fr), y.get(fr))) }
	case token.LSS:
		return func(fr *Frame) { fr.regs[dst] = m.less(t, x.get(fr), y.get(fr)) }
	case token.GTR:
		return func(fr *Frame) { fr.regs[dst] = m.less(t, y.get(fr), x.get(fr)) }
	case token.LEQ:
		return func(fr *Frame) { fr.regs[dst] = m.lessEq(t, x.get(fr), y.get(fr)) }
	case token.GEQ:
		return func(fr *Frame) { fr.regs[dst] = m.lessEq(t, y.get(fr), x.get(fr)) }
	}
	if isString(t) {
		return func(fr *Frame) { fr.regs[dst] = m.strConcat(x.get(fr), y.get(fr)) }
	}
	op := in.Op
	w := m.width(t)
	if isFloat(t) {
		return func(fr *Frame) { fr.regs[dst] = m.floatOp(op, w, x.get(fr), y.get(fr)) }
	}
	if w < 0 {
		return func(fr *Frame) { m.unsupported("binop " + op.String() + " on " + t.String()) }
	}
	sg := isSigned(t)
	mk := mask(uint8(w))
	switch op {
	case token.ADD:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.R == nil && b.R == nil {
				fr.regs[dst] = Value{N: (a.N + b.N) & mk}
				return
			}
			fr.regs[dst] = m.val(m.tt.BV(OAdd, m.term(a, w), m.term(b, w)))
		}
	case token.SUB:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.R == nil && b.R == nil {
				fr.regs[dst] = Value{N: (a.N - b.N) & mk}
				return
			}
			fr.regs[dst] = m.val(m.tt.BV(OSub, m.term(a, w), m.term(b, w)))
		}
	case token.SHL, token.SHR:
		yt := in.Y.Type()
		yw := m.width(yt)
		ys := isSigned(yt)
		return func(fr *Frame) { fr.regs[dst] = m.shift(op, w, sg, x.get(fr), y.get(fr), yw, ys) }
	}
	var sop Op
	switch op {
	case token.MUL:
		sop = OMul
	case token.QUO:
		sop = OUDiv
		if sg {
			sop = OSDiv
		}
	case token.REM:
		sop = OURem
		if sg {
			sop = OSRem
		}
	case token.AND:
		sop = OBAnd
	case token.OR:
		sop = OBOr
	case token.XOR:
		sop = OBXor
	case token.AND_NOT:
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.R == nil && b.R == nil {
				fr.regs[dst] = Value{N: a.N &^ b.N}
				return
			}
			fr.regs[dst] = m.val(m.tt.BV(OBAnd, m.term(a, w), m.tt.BNot(m.term(b, w))))
		}
	default:
		panic("binop " + op.String())
	}
	isDiv := op == token.QUO || op == token.REM
	if w == 0 { // boolean & | ^ do not exist in Go, but keep safe
		return func(fr *Frame) { m.unsupported("bool binop") }
	}
	return func(fr *Frame) {
		a, b := x.get(fr), y.get(fr)
		if isDiv {
			if b.R == nil {
				if b.N == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(m.tt.Eq(b.R.(*Term), m.tt.Const(0, uint8(w)))) {
				m.rtPanic("integer divide by zero")
			}
		}
		if a.R == nil && b.R == nil {
			v, _ := evalBV(sop, uint8(w), a.N, b.N)
			fr.regs[dst] = Value{N: v}
			return
		}
		fr.regs[dst] = m.val(m.tt.BV(sop, m.term(a, w), m.term(b, w)))
	}
}

func (m *Machine) notVal(v Value) Value {
	if t, ok := v.R.(*Term); ok {
		return m.val(m.tt.Not(t))
	}
	return bval(v.N == 0)
}

// eqMixed: comparison where one operand may be an interface and the other concrete.
func (m *Machine) eqMixed(tx, ty types.Type, a, b Value) Value {
	_, ix := tx.Underlying().(*types.Interface)
	_, iy := ty.Underlying().(*types.Interface)
	if ix && !iy {
		if isNilType(ty) {
			return bval(a.R == nil)
		}
		return m.eq(tx, a, Value{R: &Iface{T: ty, V: b}})
	}
	if iy && !ix {
		if isNilType(tx) {
			return bval(b.R == nil)
		}
		return m.eq(ty, Value{R: &Iface{T: tx, V: a}}, b)
	}
	if isNilType(tx) {
		return m.eq(ty, a, b)
	}
	return m.eq(tx, a, b)
}

func isNilType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (m *Machine) less(t types.Type, a, b Value) Value {
	if isString(t) {
		return m.strLess(a, b, false)
	}
	w := m.width(t)
	if isFloat(t) {
		if a.R == nil && b.R == nil {
			return bval(toF(a.N, uint8(w)) < toF(b.N, uint8(w)))
		}
		return m.val(m.tt.F(OFLt, 0, m.term(a, w), m.term(b, w)))
	}
	if a.R == nil && b.R == nil {
		if isSigned(t) {
			return bval(sext64(a.N, uint8(w)) < sext64(b.N, uint8(w)))
		}
		return bval(a.N < b.N)
	}
	op := OULt
	if isSigned(t) {
		op = OSLt
	}
	return m.val(m.tt.Cmp(op, m.term(a, w), m.term(b, w)))
}

func (m *Machine) lessEq(t types.Type, a, b Value) Value {
	if isString(t) {
		return m.strLess(a, b, true)
	}
	w := m.width(t)
	if isFloat(t) {
		if a.R == nil && b.R == nil {
			return bval(toF(a.N, uint8(w)) <= toF(b.N, uint8(w)))
		}
		return m.val(m.tt.F(OFLe, 0, m.term(a, w), m.term(b, w)))
	}
	if a.R == nil && b.R == nil {
		if isSigned(t) {
			return bval(sext64(a.N, uint8(w)) <= sext64(b.N, uint8(w)))
		}
		return bval(a.N <= b.N)
	}
	op := OULe
	if isSigned(t) {
		op = OSLe
	}
	return m.val(m.tt.Cmp(op, m.term(a, w), m.term(b, w)))
}

func (m *Machine) floatOp(op token.Token, w int, a, b Value) Value {
	var o Op
	switch op {
	case token.ADD:
		o = OFAdd
	case token.SUB:
		o = OFSub
	case token.MUL:
		o = OFMul
	case token.QUO:
		o = OFDiv
	default:
		m.unsupported("float op " + op.String())
	}
	if a.R == nil && b.R == nil {
		v, _ := evalF(o, uint8(w), uint8(w), a.N, b.N)
		return Value{N: v}
	}
	return m.val(m.tt.F(o, uint8(w), m.term(a, w), m.term(b, w)))
}

func (m *Machine) shift(op token.Token, w int, sg bool, a, b Value, yw int, ys bool) Value {
	if b.R == nil {
		n := b.N
		if ys {
			s := sext64(n, uint8(yw))
			if s < 0 {
				m.rtPanic("negative shift amount")
			}
			n = uint64(s)
		}
		if a.R == nil {
			if op == token.SHL {
				if n >= 64 {
					return Value{}
				}
				return Value{N: (a.N << n) & mask(uint8(w))}
			}
			if sg {
				if n > 63 {
					n = 63
				}
				return Value{N: uint64(sext64(a.N, uint8(w))>>n) & mask(uint8(w))}
			}
			if n >= 64 {
				return Value{}
			}
			return Value{N: a.N >> n}
		}
		if n > uint64(w) {
			n = uint64(w)
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if sg {
				o = OAShr
			}
		}
		ta := m.term(a, w)
		if n >= uint64(w) {
			if o == OAShr {
				n = uint64(w) - 1
			} else {
				return Value{}
			}
		}
		return m.val(m.tt.BV(o, ta, m.tt.Const(n, uint8(w))))
	}
	tb := b.R.(*Term)
	if ys {
		if m.branch(m.tt.Cmp(OSLt, tb, m.tt.Const(0, tb.w))) {
			m.rtPanic("negative shift amount")
		}
	}
	// clamp to w
	big := m.tt.Cmp(OULe, m.tt.Const(uint64(w), tb.w), tb)
	if mask(tb.w) < uint64(w) {
		big = m.tt.False
	}
	var sh *Term
	if int(tb.w) >= w {
		sh = m.tt.Extract(tb, 0, uint8(w))
	} else {
		sh = m.tt.Zext(tb, uint8(w))
	}
	ta := m.term(a, w)
	o := OShl
	over := m.tt.Const(0, uint8(w))
	if op == token.SHR {
		o = OLShr
		if sg {
			o = OAShr
			over = m.tt.BV(OAShr, ta, m.tt.Const(uint64(w-1), uint8(w)))
		}
	}
	return m.val(m.tt.Ite(big, over, m.tt.BV(o, ta, sh)))
}

func (c *compiler) unop(in *ssa.UnOp, dst int) instrFn {
	m := c.m
	x := c.op(in.X)
	t := in.X.Type()
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			p := x.c.R.(*Value)
			gn := g.String()
			track, where := c.f.track, c.f.name
			return func(fr *Frame) {
				if p.R != nil {
					if _, ok := p.R.(poison); ok {
						m.unsupported("uninitialised global " + gn)
					}
				}
				if m.races != nil && track {
					m.access(p, false, where)
				}
				fr.regs[dst] = copyVal(*p)
			}
		}
		target, track, where := c.f.target, c.f.track, c.f.name
		return func(fr *Frame) {
			v := x.get(fr)
			if target && m.interleave == 2 {
				m.memPoint(v)
			}
			if m.races != nil && track {
				m.access(v.R, false, where)
			}
			if p, ok := v.R.(*Value); ok {
				fr.regs[dst] = copyVal(*p)
				return
			}
			fr.regs[dst] = copyVal(m.load(v))
		}
	case token.NOT:
		return func(fr *Frame) { fr.regs[dst] = m.notVal(x.get(fr)) }
	case token.SUB:
		w := m.width(t)
		if isFloat(t) {
			return func(fr *Frame) {
				a := x.get(fr)
				sgn := uint64(1) << (w - 1)
				if a.R == nil {
					fr.regs[dst] = Value{N: a.N ^ sgn}
					return
				}
				fr.regs[dst] = m.val(m.tt.BV(OBXor, m.term(a, w), m.tt.Const(sgn, uint8(w))))
			}
		}
		return func(fr *Frame) {
			a := x.get(fr)
			if a.R == nil {
				fr.regs[dst] = Value{N: (-a.N) & mask(uint8(w))}
				return
			}
			fr.regs[dst] = m.val(m.tt.BV(OSub, m.tt.Const(0, uint8(w)), m.term(a, w)))
		}
	case token.XOR:
		w := m.width(t)
		return func(fr *Frame) {
			a := x.get(fr)
			if a.R == nil {
				fr.regs[dst] = Value{N: ^a.N & mask(uint8(w))}
				return
			}
			fr.regs[dst] = m.val(m.tt.BNot(m.term(a, w)))
		}
	case token.ARROW:
		et := t.Underlying().(*types.Chan).Elem()
		commaOk := in.CommaOk
		return func(fr *Frame) {
			v, ok := m.chanRecv(x.get(fr), et)
			if commaOk {
				fr.regs[dst] = Value{R: Tuple{v, bval(ok)}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + in.Op.String())
}

func (m *Machine) conv(from, to types.Type) func(Value) Value {
	fu, tu := from.Underlying(), to.Underlying()
	ident := func(v Value) Value { return v }
	if tp, ok := tu.(*types.TypeParam); ok {
		return func(v Value) Value { m.unsupported("conv to " + tp.String()); return v }
	}
	switch tu.(type) {
	case *types.Pointer:
		return ident
	}
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	if tIsB && tb.Kind() == types.UnsafePointer || fIsB && fb.Kind() == types.UnsafePointer {
		return ident
	}
	if tIsB && tb.Info()&types.IsString != 0 {
		switch f := fu.(type) {
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return ident
			}
			// integer -> string
			return func(v Value) Value {
				w := m.width(from)
				if v.R == nil {
					n := sext64(v.N, uint8(w))
					if !isSigned(from) {
						n = int64(v.N)
					}
					if n < 0 || n > 0x10ffff {
						n = 0xfffd
					}
					return mkStr(string(rune(n)))
				}
				t := m.term(v, w)
				if m.branch(m.tt.Cmp(OULt, t, m.tt.Const(0x80, uint8(w)))) {
					return m.mkSym([]sbyte{{T: m.tt.Extract(t, 0, 8)}})
				}
				fn := m.eng.lookupFunc("unicode/utf8", "AppendRune")
				var r32 *Term
				if w >= 32 {
					r32 = m.tt.Extract(t, 0, 32)
				} else {
					r32 = m.tt.Zext(t, 32)
				}
				r := m.callFn(m.curFrame(), fn, []Value{{}, m.val(r32)}, nil)
				return m.bytesToStr(sliceElems(r))
			}
		case *types.Slice:
			if isByteElem(f.Elem()) {
				return func(v Value) Value { return m.bytesToStr(sliceElems(v)) }
			}
			return func(v Value) Value {
				res := Value{}
				toS := m.conv(types.Typ[types.Int32], types.Typ[types.String])
				for _, e := range sliceElems(v) {
					res = m.strConcat(res, toS(e))
				}
				return res
			}
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if ts, ok := tu.(*types.Slice); ok {
			if isByteElem(ts.Elem()) {
				return func(v Value) Value { return m.strToSlice(v) }
			}
			return func(v Value) Value {
				var e []Value
				n := strLen(v)
				for i := 0; i < n; {
					r, w := m.decodeRune(m.strSlice(v, i, n))
					e = append(e, r)
					i += w
				}
				return Value{R: &Slice{E: e}}
			}
		}
	}
	if tIsB && fIsB {
		fw, tw := m.width(from), m.width(to)
		if fw < 0 || tw < 0 {
			return func(v Value) Value { m.unsupported("conv " + from.String() + " to " + to.String()); return v }
		}
		fs, ts := isSigned(from), isSigned(to)
		switch {
		case isInteger(from) && isInteger(to):
			return func(v Value) Value {
				if v.R == nil {
					n := v.N
					if tw > fw && fs {
						n = uint64(sext64(n, uint8(fw)))
					}
					return Value{N: n & mask(uint8(tw))}
				}
				t := v.R.(*Term)
				switch {
				case tw == fw:
					return v
				case tw < fw:
					return m.val(m.tt.Extract(t, 0, uint8(tw)))
				case fs:
					return m.val(m.tt.Sext(t, uint8(tw)))
				default:
					return m.val(m.tt.Zext(t, uint8(tw)))
				}
			}
		case isInteger(from) && isFloat(to):
			return func(v Value) Value {
				op := OFFromU
				if fs {
					op = OFFromS
				}
				if v.R == nil {
					r, _ := evalF(op, uint8(tw), uint8(fw), v.N, 0)
					return Value{N: r}
				}
				return m.val(m.tt.F(op, uint8(tw), v.R.(*Term), nil))
			}
		case isFloat(from) && isInteger(to):
			return func(v Value) Value {
				if v.R == nil {
					f := toF(v.N, uint8(fw))
					if ts {
						return Value{N: uint64(int64(f)) & mask(uint8(tw))}
					}
					return Value{N: uint64(f) & mask(uint8(tw))}
				}
				if !ts {
					m.unsupported("symbolic float to unsigned")
				}
				return m.val(m.tt.F(OFToS, uint8(tw), v.R.(*Term), nil))
			}
		case isFloat(from) && isFloat(to):
			if fw == tw {
				return ident
			}
			return func(v Value) Value {
				if v.R == nil {
					return Value{N: fromF(toF(v.N, uint8(fw)), uint8(tw))}
				}
				return m.val(m.tt.F(OFToF, uint8(tw), v.R.(*Term), nil))
			}
		case tb.Info()&types.IsBoolean != 0:
			return ident
		}
	}
	// slices/maps/structs of identical underlying types
	if types.Identical(fu, tu) || types.IdenticalIgnoreTags(fu, tu) {
		return ident
	}
	if ts, ok := tu.(*types.Array); ok { // slice to array
		n := int(ts.Len())
		return func(v Value) Value {
			e := sliceElems(v)
			if len(e) < n {
				m.rtPanic("cannot convert slice to array: length too short")
			}
			return copyVal(Value{R: &Array{E: e[:n:n]}})
		}
	}
	return func(v Value) Value {
		m.unsupported(fmt.Sprintf("conv %s to %s", from, to))
		return v
	}
}

var _ = math.Inf
