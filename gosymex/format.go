package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Native model of fmt's formatting functions. Text (symbolic or not) is kept exactly;
// symbolic numbers are placed as '?' in error texts and made concrete elsewhere.

type fmtCtx struct {
	m     *Machine
	fr    *Frame
	isErr bool
	out   []sbyte
}

func (c *fmtCtx) str(s string) {
	for i := 0; i < len(s); i++ {
		c.out = append(c.out, sbyte{C: s[i]})
	}
}

// stringish: error / Stringer / string-kind rendering; ok=false when not applicable
func (c *fmtCtx) stringish(v Value) (Value, bool) {
	ifc := v.R.(*Iface)
	m := c.m
	if fn := m.findMethod(ifc.T, "Error", nil); fn != nil && isStrMethod(fn) {
		if ifc.V.R == nil {
			if _, ok := ifc.T.Underlying().(*types.Pointer); ok {
				return mkStr("<nil>"), true
			}
		}
		return m.callFn(c.fr, fn, []Value{ifc.V}, nil), true
	}
	if fn := m.findMethod(ifc.T, "String", nil); fn != nil && isStrMethod(fn) {
		if ifc.V.R == nil {
			if _, ok := ifc.T.Underlying().(*types.Pointer); ok {
				return mkStr("<nil>"), true
			}
		}
		return m.callFn(c.fr, fn, []Value{ifc.V}, nil), true
	}
	if isString(ifc.T) {
		return ifc.V, true
	}
	return Value{}, false
}

func isStrMethod(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (c *fmtCtx) concNum(v Value, t types.Type) (Value, bool) {
	if tm, ok := v.R.(*Term); ok {
		if c.isErr {
			return Value{}, false
		}
		return Value{N: c.m.concretize(tm)}, true
	}
	return v, true
}

// native converts to a Go value usable with fmt; strings inside composites are rendered concretely.
func (c *fmtCtx) native(v Value, t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if s, ok := c.m.concStr(v); ok {
				return s
			}
			if c.isErr {
				return "?"
			}
			c.m.unsupported("fmt of a symbolic string inside a composite")
		}
		v, ok := c.concNum(v, t)
		if !ok {
			return "?"
		}
		w := c.m.width(t)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return v.N != 0
		case u.Info()&types.IsFloat != 0:
			if w == 32 {
				return math.Float32frombits(uint32(v.N))
			}
			return math.Float64frombits(v.N)
		case u.Kind() == types.Uint8:
			return uint8(v.N)
		case u.Kind() == types.Int32:
			return int32(v.N)
		case u.Info()&types.IsUnsigned != 0:
			return v.N
		case u.Info()&types.IsInteger != 0:
			return sext64(v.N, uint8(w))
		}
		return "?"
	case *types.Interface:
		if v.R == nil {
			return nil
		}
		ifc := v.R.(*Iface)
		if sv, ok := c.stringish(v); ok {
			if s, ok := c.m.concStr(sv); ok {
				return s
			}
			if c.isErr {
				return "?"
			}
			c.m.unsupported("fmt of a symbolic string inside a composite")
		}
		return c.native(ifc.V, ifc.T)
	case *types.Slice:
		if v.R == nil {
			return []any(nil)
		}
		if isByteElem(u.Elem()) {
			var b []byte
			for _, e := range v.R.(*Slice).E {
				x, ok := c.concNum(e, u.Elem())
				if !ok {
					return "?"
				}
				b = append(b, byte(x.N))
			}
			return b
		}
		r := []any{}
		for _, e := range v.R.(*Slice).E {
			r = append(r, c.native(e, u.Elem()))
		}
		return r
	case *types.Array:
		r := []any{}
		for _, e := range v.R.(*Array).E {
			r = append(r, c.native(e, u.Elem()))
		}
		return r
	case *types.Map:
		r := map[any]any{}
		if v.R != nil {
			for _, e := range v.R.(*Map).ents {
				if !e.dead {
					r[c.native(e.K, u.Key())] = c.native(e.V, u.Elem())
				}
			}
		}
		return r
	case *types.Struct:
		var sb strings.Builder
		sb.WriteByte('{')
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprint(&sb, c.native(v.R.(*Struct).F[i], u.Field(i).Type()))
		}
		sb.WriteByte('}')
		return rawStr(sb.String())
	case *types.Pointer:
		if v.R == nil {
			return nil
		}
		return rawStr("0xc000012345")
	}
	return rawStr("?")
}

type rawStr string

func (r rawStr) String() string { return string(r) }

func (c *fmtCtx) arg(spec string, verb byte, v Value) {
	m := c.m
	if verb == 'T' {
		if v.R == nil {
			c.str("<nil>")
		} else {
			c.str(typeString(v.R.(*Iface).T))
		}
		return
	}
	if v.R == nil {
		c.str(fmt.Sprintf(spec, nil))
		return
	}
	ifc := v.R.(*Iface)
	switch verb {
	case 'v', 's', 'q', 'x', 'X', 'w':
		if strings.Contains(spec, "#") && verb == 'v' {
			break
		}
		if sv, ok := c.stringish(v); ok {
			if s, ok := m.concStr(sv); ok {
				c.str(fmt.Sprintf(spec, s))
				return
			}
			if spec == "%v" || spec == "%s" {
				c.out = append(c.out, strBytes(sv)...)
				return
			}
			if c.isErr {
				c.str(fmt.Sprintf(spec, m.render(sv)))
				return
			}
			m.unsupported("fmt " + spec + " of a symbolic string")
		}
		if sl, ok := ifc.T.Underlying().(*types.Slice); ok && isByteElem(sl.Elem()) && (verb == 's') && spec == "%s" {
			c.out = append(c.out, strBytes(m.bytesToStr(sliceElems(ifc.V)))...)
			return
		}
	}
	n := c.native(ifc.V, ifc.T)
	if n == "?" && c.isErr {
		c.str("?")
		return
	}
	if r, ok := n.(rawStr); ok {
		c.str(string(r))
		return
	}
	c.str(fmt.Sprintf(spec, n))
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *fmtCtx) format(format string, args []Value) (wrapped []Value) {
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			c.str(format[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			c.str("%!(NOVERB)")
			break
		}
		if format[j] == '*' || format[j] == '[' {
			c.m.unsupported("fmt: " + format)
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j + 1
		if verb == '%' {
			c.str("%")
			continue
		}
		if ai >= len(args) {
			c.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		v := args[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, v)
			spec = spec[:len(spec)-1] + "v"
		}
		c.arg(spec, verb, v)
	}
	if ai < len(args) {
		c.str("%!(EXTRA ...)")
	}
	return wrapped
}

func (c *fmtCtx) print(args []Value, spaces, nl bool) {
	prevStr := false
	for i, a := range args {
		isStr := a.R != nil && isString(a.R.(*Iface).T)
		if i > 0 && (spaces || (!isStr && !prevStr)) {
			c.str(" ")
		}
		c.arg("%v", 'v', a)
		prevStr = isStr
	}
	if nl {
		c.str("\n")
	}
}

func (m *Machine) fmtString(v Value) string {
	s, ok := m.concStr(v)
	if !ok {
		m.unsupported("symbolic format string")
	}
	return s
}

func init() {
	reg("fmt.Sprintf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.format(m.fmtString(a[0]), sliceElems(a[1]))
		return m.mkSym(c.out)
	})
	reg("fmt.Sprint", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.print(sliceElems(a[0]), false, false)
		return m.mkSym(c.out)
	})
	reg("fmt.Sprintln", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.print(sliceElems(a[0]), true, true)
		return m.mkSym(c.out)
	})
	write := func(m *Machine, fr *Frame, w Value, out []sbyte) Value {
		if w.R == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		ifc := w.R.(*Iface)
		wf := m.findMethod(ifc.T, "Write", nil)
		return m.callFn(fr, wf, []Value{ifc.V, m.strToSlice(m.mkSym(out))}, nil)
	}
	reg("fmt.Fprintf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.format(m.fmtString(a[1]), sliceElems(a[2]))
		return write(m, fr, a[0], c.out)
	})
	reg("fmt.Fprint", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.print(sliceElems(a[1]), false, false)
		return write(m, fr, a[0], c.out)
	})
	reg("fmt.Fprintln", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr}
		c.print(sliceElems(a[1]), true, true)
		return write(m, fr, a[0], c.out)
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, nop)
	}
	reg("fmt.Errorf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := &fmtCtx{m: m, fr: fr, isErr: true}
		w := c.format(m.fmtString(a[0]), sliceElems(a[1]))
		msg := m.mkSym(c.out)
		var errs []Value
		for _, x := range w {
			if x.R != nil && m.findMethod(x.R.(*Iface).T, "Error", nil) != nil {
				errs = append(errs, x)
			}
		}
		if len(errs) == 0 {
			return m.callFn(fr, m.eng.lookupFunc("errors", "New"), []Value{msg}, nil)
		}
		if len(errs) == 1 {
			t := m.eng.lookupType("fmt", "wrapError")
			p := new(Value)
			*p = Value{R: &Struct{F: []Value{msg, errs[0]}}}
			return Value{R: &Iface{T: types.NewPointer(t), V: Value{R: p}}}
		}
		t := m.eng.lookupType("fmt", "wrapErrors")
		p := new(Value)
		*p = Value{R: &Struct{F: []Value{msg, {R: &Slice{E: errs}}}}}
		return Value{R: &Iface{T: types.NewPointer(t), V: Value{R: p}}}
	})
	reg("errors.As", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if a[1].R == nil {
			m.targetPanicText("errors: target cannot be nil")
		}
		tgt := a[1].R.(*Iface)
		pt, ok := tgt.T.Underlying().(*types.Pointer)
		if !ok || tgt.V.R == nil {
			m.targetPanicText("errors: target must be a non-nil pointer")
		}
		et := pt.Elem()
		var walk func(err Value) bool
		walk = func(err Value) bool {
			for err.R != nil {
				ifc := err.R.(*Iface)
				match := false
				if it, ok := et.Underlying().(*types.Interface); ok {
					match = m.implements(ifc.T, it)
					if match {
						m.storeTo(m.ptr(tgt.V), err)
					}
				} else if m.typeID(ifc.T) == m.typeID(et) {
					match = true
					m.storeTo(m.ptr(tgt.V), ifc.V)
				}
				if match {
					return true
				}
				if as := m.findMethod(ifc.T, "As", nil); as != nil && as.Signature.Params().Len() == 1 {
					if m.truth(m.callFn(fr, as, []Value{ifc.V, a[1]}, nil)) {
						return true
					}
				}
				un := m.findMethod(ifc.T, "Unwrap", nil)
				if un == nil {
					return false
				}
				r := m.callFn(fr, un, []Value{ifc.V}, nil)
				if _, isSl := un.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSl {
					for _, e := range sliceElems(r) {
						if walk(e) {
							return true
						}
					}
					return false
				}
				err = r
			}
			return false
		}
		return bval(walk(a[0]))
	})
}
