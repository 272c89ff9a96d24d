package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A small native model of package reflect (values are carried in the first field of reflect.Value).

type rtype struct{ t types.Type }
type rval struct {
	t    types.Type
	v    Value
	addr *Value
}

func (m *Machine) rtypeOf(t types.Type) *rtype {
	id := m.typeID(t)
	if r, ok := m.reflectTypes[id]; ok {
		return r
	}
	r := &rtype{t}
	m.reflectTypes[id] = r
	return r
}

func (m *Machine) mkRVal(r *rval) Value {
	return Value{R: &Struct{F: []Value{{R: r}, {}, {}}}}
}

func (m *Machine) getRVal(v Value) *rval {
	st, ok := v.R.(*Struct)
	if !ok {
		if p, ok := v.R.(*Value); ok {
			st, _ = p.R.(*Struct)
		}
	}
	if st == nil {
		m.unsupported("reflect.Value representation")
	}
	if st.F[0].R == nil {
		return nil
	}
	return st.F[0].R.(*rval)
}

func (m *Machine) rtypeIface(t types.Type) Value {
	rt := m.eng.lookupType("reflect", "rtype")
	return Value{R: &Iface{T: types.NewPointer(rt), V: Value{R: m.rtypeOf(t)}}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *Machine) rvIface(r *rval) Value {
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return r.v
	}
	return Value{R: &Iface{T: r.t, V: copyVal(r.v)}}
}

func init() {
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		pk := pk
		reg(pk+".ValueOf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			if a[0].R == nil {
				return m.mkRValNil()
			}
			ifc := a[0].R.(*Iface)
			return m.mkRVal(&rval{t: ifc.T, v: ifc.V})
		})
		reg(pk+".TypeOf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			if a[0].R == nil {
				return Value{}
			}
			return m.rtypeIface(a[0].R.(*Iface).T)
		})
		v := func(name string, f func(m *Machine, r *rval, a []Value) Value) {
			reg("("+pk+".Value)."+name, func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				r := m.getRVal(a[0])
				if r == nil {
					switch name {
					case "IsValid":
						return Value{}
					case "Kind":
						return Value{}
					case "String":
						return mkStr("<invalid Value>")
					}
					m.targetPanicText("reflect: call of reflect.Value." + name + " on zero Value")
				}
				if r.addr != nil {
					r = &rval{t: r.t, v: *r.addr, addr: r.addr}
				}
				return f(m, r, a[1:])
			})
		}
		v("Addr", func(m *Machine, r *rval, a []Value) Value {
			if r.addr == nil {
				m.targetPanicText("reflect.Value.Addr of unaddressable value")
			}
			return m.mkRVal(&rval{t: types.NewPointer(r.t), v: Value{R: r.addr}})
		})
		v("SetZero", func(m *Machine, r *rval, a []Value) Value {
			if r.addr == nil {
				m.targetPanicText("reflect: using unaddressable value")
			}
			m.storeTo(r.addr, m.zero(r.t))
			return Value{}
		})
		v("SetMapIndex", func(m *Machine, r *rval, a []Value) Value {
			u := r.t.Underlying().(*types.Map)
			k := m.rvAs(m.rvCur(a[0]), u.Key())
			e := m.getRVal(a[1])
			if r.v.R == nil {
				m.targetPanicText("assignment to entry in nil map")
			}
			if e == nil {
				m.mapDelete(r.v.R.(*Map), k)
			} else {
				m.mapSet(r.v.R.(*Map), k, copyVal(m.rvAs(m.rvCur(a[1]), u.Elem())))
			}
			return Value{}
		})
		v("MapRange", func(m *Machine, r *rval, a []Value) Value {
			it := &rmapIter{u: r.t.Underlying().(*types.Map)}
			if r.v.R != nil {
				it.it.ents = r.v.R.(*Map).ents
				it.it.shuffle = m.mapOrder
			}
			return Value{R: it}
		})
		v("SetIterKey", func(m *Machine, r *rval, a []Value) Value {
			it := a[0].R.(*rmapIter)
			m.storeTo(r.addr, m.rvAs(&rval{t: it.u.Key(), v: it.k}, r.t))
			return Value{}
		})
		v("SetIterValue", func(m *Machine, r *rval, a []Value) Value {
			it := a[0].R.(*rmapIter)
			m.storeTo(r.addr, m.rvAs(&rval{t: it.u.Elem(), v: it.v}, r.t))
			return Value{}
		})
		v("SetLen", func(m *Machine, r *rval, a []Value) Value {
			n := int(m.conc(a[0]))
			e := sliceElems(r.v)
			if n < 0 || n > cap(e) {
				m.targetPanicText("reflect: slice length out of range in SetLen")
			}
			m.storeTo(r.addr, Value{R: &Slice{E: e[:n]}})
			return Value{}
		})
		v("Grow", func(m *Machine, r *rval, a []Value) Value {
			n := int(m.conc(a[0]))
			e := sliceElems(r.v)
			if len(e)+n > cap(e) {
				el := r.t.Underlying().(*types.Slice).Elem()
				ne := make([]Value, len(e), 2*cap(e)+n)
				for i := range e {
					ne[i] = copyVal(e[i])
				}
				full := ne[:cap(ne)]
				for i := len(e); i < len(full); i++ {
					full[i] = m.zero(el)
				}
				m.storeTo(r.addr, Value{R: &Slice{E: ne}})
			}
			return Value{}
		})
		v("Slice", func(m *Machine, r *rval, a []Value) Value {
			i, j := int(m.conc(a[0])), int(m.conc(a[1]))
			if isString(r.t) {
				return m.mkRVal(&rval{t: r.t, v: m.strSlice(r.v, i, j)})
			}
			e := sliceElems(r.v)
			if i < 0 || j < i || j > cap(e) {
				m.targetPanicText("reflect.Value.Slice: slice index out of bounds")
			}
			return m.mkRVal(&rval{t: r.t, v: Value{R: &Slice{E: e[i:j]}}})
		})
		v("Bytes", func(m *Machine, r *rval, a []Value) Value { return r.v })
		v("NumMethod", func(m *Machine, r *rval, a []Value) Value {
			return ival(int64(m.eng.prog.MethodSets.MethodSet(r.t).Len()))
		})
		v("CanInt", func(m *Machine, r *rval, a []Value) Value {
			k := kindOf(r.t)
			return bval(k >= reflect.Int && k <= reflect.Int64)
		})
		v("CanUint", func(m *Machine, r *rval, a []Value) Value {
			k := kindOf(r.t)
			return bval(k >= reflect.Uint && k <= reflect.Uintptr)
		})
		v("CanFloat", func(m *Machine, r *rval, a []Value) Value {
			k := kindOf(r.t)
			return bval(k == reflect.Float32 || k == reflect.Float64)
		})
		v("OverflowInt", func(m *Machine, r *rval, a []Value) Value {
			w := uint8(m.width(r.t))
			x := m.term(a[0], 64)
			return m.val(m.tt.Not(m.tt.Eq(m.tt.Sext(m.tt.Extract(x, 0, w), 64), x)))
		})
		v("OverflowUint", func(m *Machine, r *rval, a []Value) Value {
			w := uint8(m.width(r.t))
			x := m.term(a[0], 64)
			return m.val(m.tt.Not(m.tt.Eq(m.tt.Zext(m.tt.Extract(x, 0, w), 64), x)))
		})
		v("OverflowFloat", func(m *Machine, r *rval, a []Value) Value { return bval(false) })
		v("FieldByIndex", func(m *Machine, r *rval, a []Value) Value {
			x := r
			for _, iv := range sliceElems(a[0]) {
				i := int(m.conc(iv))
				if u, ok := x.t.Underlying().(*types.Pointer); ok {
					p := m.ptr(x.v)
					x = &rval{t: u.Elem(), v: *p, addr: p}
				}
				u := x.t.Underlying().(*types.Struct)
				y := &rval{t: u.Field(i).Type(), v: x.v.R.(*Struct).F[i]}
				if x.addr != nil {
					y.addr = &x.addr.R.(*Struct).F[i]
				}
				x = y
			}
			return m.mkRVal(x)
		})
		v("IsValid", func(m *Machine, r *rval, a []Value) Value { return bval(true) })
		v("Kind", func(m *Machine, r *rval, a []Value) Value { return Value{N: uint64(kindOf(r.t))} })
		v("Interface", func(m *Machine, r *rval, a []Value) Value { return m.rvIface(r) })
		v("CanInterface", func(m *Machine, r *rval, a []Value) Value { return bval(true) })
		v("CanAddr", func(m *Machine, r *rval, a []Value) Value { return bval(r.addr != nil) })
		v("CanSet", func(m *Machine, r *rval, a []Value) Value { return bval(r.addr != nil) })
		v("Type", func(m *Machine, r *rval, a []Value) Value { return m.rtypeIface(r.t) })
		v("Len", func(m *Machine, r *rval, a []Value) Value { return ival(int64(m.length(r.v, r.t))) })
		v("Cap", func(m *Machine, r *rval, a []Value) Value { return ival(int64(cap(sliceElems(r.v)))) })
		v("IsNil", func(m *Machine, r *rval, a []Value) Value {
			switch kindOf(r.t) {
			case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
				return bval(r.v.R == nil)
			}
			m.targetPanicText("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
			return Value{}
		})
		num := func(m *Machine, r *rval, a []Value) Value {
			w := m.width(r.t)
			if w < 0 {
				m.targetPanicText("reflect: call on " + kindOf(r.t).String() + " Value")
			}
			if isSigned(r.t) {
				return m.val(m.tt.Sext(m.term(r.v, w), 64))
			}
			return m.val(m.tt.Zext(m.term(r.v, w), 64))
		}
		v("Int", num)
		v("Uint", num)
		v("Float", func(m *Machine, r *rval, a []Value) Value {
			if m.width(r.t) == 32 {
				return m.conv(types.Typ[types.Float32], types.Typ[types.Float64])(r.v)
			}
			return r.v
		})
		v("Bool", func(m *Machine, r *rval, a []Value) Value { return r.v })
		v("String", func(m *Machine, r *rval, a []Value) Value {
			if isString(r.t) {
				return r.v
			}
			return mkStr("<" + typeString(r.t) + " Value>")
		})
		v("Index", func(m *Machine, r *rval, a []Value) Value {
			i := int(m.conc(a[0]))
			switch u := r.t.Underlying().(type) {
			case *types.Slice:
				e := sliceElems(r.v)
				if i < 0 || i >= len(e) {
					m.targetPanicText("reflect: slice index out of range")
				}
				return m.mkRVal(&rval{t: u.Elem(), v: e[i], addr: &e[i]})
			case *types.Array:
				e := r.v.R.(*Array).E
				if r.addr != nil {
					e = r.addr.R.(*Array).E
				}
				if i < 0 || i >= len(e) {
					m.targetPanicText("reflect: array index out of range")
				}
				x := &rval{t: u.Elem(), v: e[i]}
				if r.addr != nil {
					x.addr = &e[i]
				}
				return m.mkRVal(x)
			}
			return m.mkRVal(&rval{t: types.Typ[types.Uint8], v: m.strIndex(r.v, a[0], types.Typ[types.Int])})
		})
		v("Elem", func(m *Machine, r *rval, a []Value) Value {
			switch u := r.t.Underlying().(type) {
			case *types.Interface:
				if r.v.R == nil {
					return m.mkRValNil()
				}
				return m.mkRVal(&rval{t: r.v.R.(*Iface).T, v: r.v.R.(*Iface).V})
			case *types.Pointer:
				if r.v.R == nil {
					return m.mkRValNil()
				}
				p := m.ptr(r.v)
				return m.mkRVal(&rval{t: u.Elem(), v: *p, addr: p})
			}
			m.targetPanicText("reflect: call of Elem")
			return Value{}
		})
		v("NumField", func(m *Machine, r *rval, a []Value) Value {
			return ival(int64(r.t.Underlying().(*types.Struct).NumFields()))
		})
		v("Field", func(m *Machine, r *rval, a []Value) Value {
			i := int(m.conc(a[0]))
			u := r.t.Underlying().(*types.Struct)
			st := r.v.R.(*Struct)
			if r.addr != nil {
				st = r.addr.R.(*Struct)
			}
			x := &rval{t: u.Field(i).Type(), v: st.F[i]}
			if r.addr != nil {
				x.addr = &st.F[i]
			}
			return m.mkRVal(x)
		})
		set := func(m *Machine, r *rval, v Value) Value {
			if r.addr == nil {
				m.targetPanicText("reflect: using unaddressable value")
			}
			m.storeTo(r.addr, v)
			return Value{}
		}
		v("Set", func(m *Machine, r *rval, a []Value) Value {
			return set(m, r, copyVal(m.rvAs(m.rvCur(a[0]), r.t)))
		})
		setn := func(m *Machine, r *rval, a []Value) Value {
			w := m.width(r.t)
			return set(m, r, m.val(m.tt.Extract(m.term(a[0], 64), 0, uint8(w))))
		}
		v("SetInt", setn)
		v("SetUint", setn)
		v("SetString", func(m *Machine, r *rval, a []Value) Value { return set(m, r, a[0]) })
		v("SetBool", func(m *Machine, r *rval, a []Value) Value { return set(m, r, a[0]) })
		v("SetFloat", func(m *Machine, r *rval, a []Value) Value { return set(m, r, a[0]) })
		v("MapIndex", func(m *Machine, r *rval, a []Value) Value {
			if r.v.R == nil {
				return m.mkRValNil()
			}
			u := r.t.Underlying().(*types.Map)
			e := m.mapFind(r.v.R.(*Map), m.rvAs(m.rvCur(a[0]), u.Key()))
			if e == nil {
				return m.mkRValNil()
			}
			return m.mkRVal(&rval{t: u.Elem(), v: e.V})
		})
		v("MapKeys", func(m *Machine, r *rval, a []Value) Value {
			var out []Value
			if r.v.R != nil {
				u := r.t.Underlying().(*types.Map)
				for _, e := range r.v.R.(*Map).ents {
					if !e.dead {
						out = append(out, m.mkRVal(&rval{t: u.Key(), v: e.K}))
					}
				}
			}
			return Value{R: &Slice{E: out}}
		})
		v("Pointer", func(m *Machine, r *rval, a []Value) Value {
			if r.v.R == nil {
				return Value{}
			}
			m.unsupported("reflect Pointer")
			return Value{}
		})
		v("UnsafePointer", func(m *Machine, r *rval, a []Value) Value { return r.v })
		v("Convert", func(m *Machine, r *rval, a []Value) Value {
			t := a[0].R.(*Iface).V.R.(*rtype).t
			return m.mkRVal(&rval{t: t, v: m.conv(r.t, t)(r.v)})
		})
		v("IsZero", func(m *Machine, r *rval, a []Value) Value {
			if types.Comparable(r.t) {
				return m.eq(r.t, r.v, m.zero(r.t))
			}
			return bval(r.v.R == nil)
		})
		v("Comparable", func(m *Machine, r *rval, a []Value) Value { return bval(types.Comparable(r.t)) })
		ty := func(name string, f func(m *Machine, t types.Type, a []Value) Value) {
			for _, k := range []string{"(*reflect.rtype).", "(internal/reflectlite.rtype)."} {
				reg(k+name, func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
					r, ok := a[0].R.(*rtype)
					if !ok {
						m.unsupported("reflect type representation")
					}
					return f(m, r.t, a[1:])
				})
			}
		}
		ty("Kind", func(m *Machine, t types.Type, a []Value) Value { return Value{N: uint64(kindOf(t))} })
		ty("String", func(m *Machine, t types.Type, a []Value) Value { return mkStr(typeString(t)) })
		ty("Name", func(m *Machine, t types.Type, a []Value) Value {
			if n, ok := t.(*types.Named); ok {
				return mkStr(n.Obj().Name())
			}
			if b, ok := t.(*types.Basic); ok {
				return mkStr(b.Name())
			}
			return Value{}
		})
		ty("Comparable", func(m *Machine, t types.Type, a []Value) Value { return bval(types.Comparable(t)) })
		ty("Elem", func(m *Machine, t types.Type, a []Value) Value {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return m.rtypeIface(u.Elem())
			case *types.Array:
				return m.rtypeIface(u.Elem())
			case *types.Pointer:
				return m.rtypeIface(u.Elem())
			case *types.Map:
				return m.rtypeIface(u.Elem())
			case *types.Chan:
				return m.rtypeIface(u.Elem())
			}
			m.targetPanicText("reflect: Elem of invalid type")
			return Value{}
		})
		ty("Key", func(m *Machine, t types.Type, a []Value) Value {
			return m.rtypeIface(t.Underlying().(*types.Map).Key())
		})
		ty("Len", func(m *Machine, t types.Type, a []Value) Value {
			return ival(t.Underlying().(*types.Array).Len())
		})
		ty("NumField", func(m *Machine, t types.Type, a []Value) Value {
			return ival(int64(t.Underlying().(*types.Struct).NumFields()))
		})
		ty("Field", func(m *Machine, t types.Type, a []Value) Value {
			return m.structField(t.Underlying().(*types.Struct), int(m.conc(a[0])))
		})
		ty("PkgPath", func(m *Machine, t types.Type, a []Value) Value {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return mkStr(n.Obj().Pkg().Path())
			}
			return Value{}
		})
		ty("Implements", func(m *Machine, t types.Type, a []Value) Value {
			u := m.rtypeArg(a[0]).Underlying().(*types.Interface)
			return bval(m.implements(t, u))
		})
		ty("AssignableTo", func(m *Machine, t types.Type, a []Value) Value {
			return bval(types.AssignableTo(t, m.rtypeArg(a[0])))
		})
		ty("ConvertibleTo", func(m *Machine, t types.Type, a []Value) Value {
			return bval(types.ConvertibleTo(t, m.rtypeArg(a[0])))
		})
		ty("Bits", func(m *Machine, t types.Type, a []Value) Value { return ival(int64(m.width(t))) })
		ty("Size", func(m *Machine, t types.Type, a []Value) Value {
			return ival(types.SizesFor("gc", "amd64").Sizeof(t))
		})
		ty("NumMethod", func(m *Machine, t types.Type, a []Value) Value {
			return ival(int64(m.eng.prog.MethodSets.MethodSet(t).Len()))
		})
	}
	reg("(*reflect.MapIter).Next", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		it := a[0].R.(*rmapIter)
		t := m.mapNext(&it.it, nil).R.(Tuple)
		it.k, it.v = t[1], t[2]
		return t[0]
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		it := a[0].R.(*rmapIter)
		return m.mkRVal(&rval{t: it.u.Key(), v: it.k})
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		it := a[0].R.(*rmapIter)
		return m.mkRVal(&rval{t: it.u.Elem(), v: it.v})
	})
	reg("reflect.New", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.rtypeArg(a[0])
		p := new(Value)
		*p = m.zero(t)
		return m.mkRVal(&rval{t: types.NewPointer(t), v: Value{R: p}})
	})
	reg("reflect.Zero", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.rtypeArg(a[0])
		return m.mkRVal(&rval{t: t, v: m.zero(t)})
	})
	mkmap := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.rtypeArg(a[0])
		return m.mkRVal(&rval{t: t, v: Value{R: m.newMap(t.Underlying().(*types.Map).Key())}})
	}
	reg("reflect.MakeMap", mkmap)
	reg("reflect.MakeMapWithSize", mkmap)
	reg("reflect.MakeSlice", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.rtypeArg(a[0])
		n, c := int(m.conc(a[1])), int(m.conc(a[2]))
		if n < 0 || c < n || int64(c) > m.eng.maxAlloc {
			m.targetPanicText("reflect.MakeSlice: bad length")
		}
		e := make([]Value, c)
		for i := range e {
			e[i] = m.zero(t.Underlying().(*types.Slice).Elem())
		}
		return m.mkRVal(&rval{t: t, v: Value{R: &Slice{E: e[:n]}}})
	})
	reg("reflect.TypeFor", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(fn.TypeArgs()[0])
	})
	reg("reflect.SliceOf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(types.NewSlice(m.rtypeArg(a[0])))
	})
	ptrTo := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(types.NewPointer(m.rtypeArg(a[0])))
	}
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.MapOf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.rtypeIface(types.NewMap(m.rtypeArg(a[0]), m.rtypeArg(a[1])))
	})
	reg("reflect.Append", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.rvCur(a[0])
		e := append([]Value{}, sliceElems(r.v)...)
		el := r.t.Underlying().(*types.Slice).Elem()
		for _, x := range sliceElems(a[1]) {
			e = append(e, copyVal(m.rvAs(m.rvCur(x), el)))
		}
		return m.mkRVal(&rval{t: r.t, v: Value{R: &Slice{E: e}}})
	})
	reg("reflect.Indirect", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		r := m.getRVal(a[0])
		if r != nil {
			if u, ok := r.t.Underlying().(*types.Pointer); ok {
				if r.v.R == nil {
					return m.mkRValNil()
				}
				p := m.ptr(r.v)
				return m.mkRVal(&rval{t: u.Elem(), v: *p, addr: p})
			}
		}
		return a[0]
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		it := types.NewInterfaceType(nil, nil)
		return m.val(m.deepEq(it, a[0], a[1], 0))
	})
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	sortSlice := func(stable bool) nativeFn {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return m.sortSlice(fr, a[0], a[1], stable)
		}
	}
	// sort.Slice / sort.SliceStable run the real algorithm through Swapper; see models for the redirect.
	_ = sortSlice
}

type rmapIter struct {
	u    *types.Map
	it   mapIter
	k, v Value
}

// rvCur is the value now held (addressable values are read through their address).
func (m *Machine) rvCur(v Value) *rval {
	r := m.getRVal(v)
	if r == nil {
		m.targetPanicText("reflect: call using zero Value argument")
	}
	if r.addr != nil {
		return &rval{t: r.t, v: *r.addr, addr: r.addr}
	}
	return r
}

// rvAs is the value as it is assigned to a variable of type t.
func (m *Machine) rvAs(r *rval, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return m.rvIface(r)
	}
	return r.v
}

func (m *Machine) rtypeArg(v Value) types.Type {
	if v.R == nil {
		m.targetPanicText("reflect: nil type passed")
	}
	r, ok := v.R.(*Iface).V.R.(*rtype)
	if !ok {
		m.unsupported("reflect type representation")
	}
	return r.t
}

func (m *Machine) structField(u *types.Struct, i int) Value {
	if i < 0 || i >= u.NumFields() {
		m.targetPanicText("reflect: Field index out of bounds")
	}
	f := u.Field(i)
	st := m.zero(m.eng.lookupType("reflect", "StructField"))
	F := st.R.(*Struct).F
	F[0] = mkStr(f.Name())
	if !f.Exported() && f.Pkg() != nil {
		F[1] = mkStr(f.Pkg().Path())
	}
	F[2] = m.rtypeIface(f.Type())
	F[3] = mkStr(u.Tag(i))
	F[5] = Value{R: &Slice{E: []Value{ival(int64(i))}}}
	F[6] = bval(f.Anonymous())
	return st
}

func (m *Machine) mkRValNil() Value { return Value{R: &Struct{F: []Value{{}, {}, {}}}} }

func swapper(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	e := sliceElems(a[0].R.(*Iface).V)
	return Value{R: &Closure{Native: func(m *Machine, fr *Frame, args []Value) Value {
		i, j := m.conc(args[0]), m.conc(args[1])
		if i >= uint64(len(e)) || j >= uint64(len(e)) {
			m.rtPanic("reflect: slice index out of range")
		}
		x, y := copyVal(e[i]), copyVal(e[j])
		m.storeTo(&e[i], y)
		m.storeTo(&e[j], x)
		return Value{}
	}}}
}

func (m *Machine) sortSlice(fr *Frame, s, less Value, stable bool) Value {
	return Value{}
}

func (m *Machine) deepEq(t types.Type, a, b Value, depth int) *Term {
	if depth > 30 {
		m.unsupported("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return m.tt.Bool(a.R == nil && b.R == nil)
		}
		x, y := a.R.(*Iface), b.R.(*Iface)
		if m.typeID(x.T) != m.typeID(y.T) {
			return m.tt.False
		}
		return m.deepEq(x.T, x.V, y.V, depth+1)
	case *types.Slice:
		if (a.R == nil) != (b.R == nil) {
			return m.tt.False
		}
		x, y := sliceElems(a), sliceElems(b)
		if len(x) != len(y) {
			return m.tt.False
		}
		r := m.tt.True
		for i := range x {
			r = m.tt.And(r, m.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		r := m.tt.True
		for i := range a.R.(*Array).E {
			r = m.tt.And(r, m.deepEq(u.Elem(), a.R.(*Array).E[i], b.R.(*Array).E[i], depth+1))
		}
		return r
	case *types.Map:
		if (a.R == nil) != (b.R == nil) {
			return m.tt.False
		}
		if a.R == nil {
			return m.tt.True
		}
		x, y := a.R.(*Map), b.R.(*Map)
		if x.n != y.n {
			return m.tt.False
		}
		r := m.tt.True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.K)
			if f == nil {
				return m.tt.False
			}
			r = m.tt.And(r, m.deepEq(u.Elem(), e.V, f.V, depth+1))
		}
		return r
	case *types.Pointer:
		if a.R == b.R {
			return m.tt.True
		}
		if a.R == nil || b.R == nil {
			return m.tt.False
		}
		return m.deepEq(u.Elem(), m.load(a), m.load(b), depth+1)
	case *types.Struct:
		r := m.tt.True
		for i := 0; i < u.NumFields(); i++ {
			r = m.tt.And(r, m.deepEq(u.Field(i).Type(), a.R.(*Struct).F[i], b.R.(*Struct).F[i], depth+1))
		}
		return r
	case *types.Signature:
		return m.tt.Bool(a.R == nil && b.R == nil)
	}
	return m.term(m.eq(t, a, b), 0)
}

var _ = fmt.Sprint
var _ = sort.Ints
