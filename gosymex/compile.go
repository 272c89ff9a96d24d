package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Each SSA function is compiled once per machine to closures.

type instrFn func(fr *Frame)
type termFn func(fr *Frame) int // next block, -1 = return

type phiC struct {
	dst int
	ops []opnd
}

type blockC struct {
	phis  []phiC
	preds []int
	body  []instrFn
	ins   []ssa.Instruction
	term  termFn
	tins  ssa.Instruction
}

type Func struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	blocks   []blockC
	hasDefer bool
	native   nativeFn
	target   bool // code under test (repository package)
	track    bool // its memory accesses are followed when looking for races
	phiTmp   int
}

type opnd struct {
	reg int
	c   Value
}

func (o *opnd) get(fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

type compiler struct {
	m    *Machine
	f    *Func
	regs map[ssa.Value]int
}

func (m *Machine) getFunc(fn *ssa.Function) *Func {
	if f, ok := m.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	m.funcs[fn] = f
	key := fnKey(fn)
	if fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") && !m.eng.initAllowed(fn.Pkg.Pkg.Path()) {
		f.native = nop
		return f
	}
	if n, ok := natives[key]; ok {
		f.native = n
		return f
	}
	if r, ok := m.eng.redirects[key]; ok {
		rf := m.getFunc(r)
		*f = *rf
		return f
	}
	if n := nativePrefix(key); n != nil {
		f.native = n
		return f
	}
	if fn.Blocks == nil {
		nm := key
		f.native = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.unsupported("no body: " + nm)
			return Value{}
		}
		return f
	}
	m.compileBody(fn, f)
	return f
}

func (m *Machine) compileBody(fn *ssa.Function, f *Func) {
	m.eng.buildFn(fn)
	f.target = m.eng.isTarget(fn)
	f.track = raceTracked(fn)
	c := &compiler{m: m, f: f, regs: map[ssa.Value]int{}}
	n := 0
	alloc := func(v ssa.Value) { c.regs[v] = n; n++ }
	for _, p := range fn.Params {
		alloc(p)
	}
	f.nparams = n
	for _, p := range fn.FreeVars {
		alloc(p)
	}
	f.nfree = len(fn.FreeVars)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				f.hasDefer = true
			}
		}
	}
	f.nregs = n
	f.blocks = make([]blockC, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bc := &f.blocks[bi]
		for _, p := range b.Preds {
			bc.preds = append(bc.preds, p.Index)
		}
		for ii, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				pc := phiC{dst: c.regs[phi]}
				for _, e := range phi.Edges {
					pc.ops = append(pc.ops, c.op(e))
				}
				bc.phis = append(bc.phis, pc)
				if len(bc.phis) > f.phiTmp {
					f.phiTmp = len(bc.phis)
				}
				continue
			}
			if ii == len(b.Instrs)-1 {
				bc.term = c.terminator(b, in)
				bc.tins = in
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			bc.body = append(bc.body, c.instr(in))
			bc.ins = append(bc.ins, in)
		}
	}
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (c *compiler) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.constVal(v)}
	case *ssa.Global:
		return opnd{-1, Value{R: c.m.global(v)}}
	case *ssa.Function:
		return opnd{-1, Value{R: &Closure{Fn: v}}}
	case *ssa.Builtin:
		return opnd{-1, Value{}}
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, c.f.name))
	}
	return opnd{r, Value{}}
}

func (c *compiler) constVal(v *ssa.Const) Value {
	if v.Value == nil {
		return c.m.zero(v.Type())
	}
	t := v.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		c.m.unsupported("type param const")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic("const type " + v.Type().String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return bval(constant.BoolVal(v.Value))
	case b.Info()&types.IsString != 0:
		if v.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(v.Value))
		}
		return mkStr(string(rune(v.Int64())))
	case b.Info()&types.IsInteger != 0:
		w := c.m.width(b)
		x := constant.ToInt(v.Value)
		if i, ok := constant.Int64Val(x); ok {
			return Value{N: uint64(i) & mask(uint8(w))}
		}
		u, _ := constant.Uint64Val(x)
		return Value{N: u & mask(uint8(w))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(v.Value))
		return Value{N: fromF(f, uint8(c.m.width(b)))}
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(v.Value))
		im, _ := constant.Float64Val(constant.Imag(v.Value))
		return Value{R: complex(re, im)}
	}
	panic("const " + v.String())
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != nil && !m.eng.initAllowed(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		*p = Value{R: poison{g.String()}}
		// zero-valued globals of packages that are never initialised are still usable
		if _, ok := m.eng.zeroOK[g.String()]; ok {
			*p = m.zero(t)
		}
	} else {
		*p = m.zero(t)
	}
	m.globals[g] = p
	return p
}

func (c *compiler) terminator(b *ssa.BasicBlock, in ssa.Instruction) termFn {
	m := c.m
	switch in := in.(type) {
	case *ssa.Jump:
		n := b.Succs[0].Index
		return func(fr *Frame) int { return n }
	case *ssa.If:
		t, f := b.Succs[0].Index, b.Succs[1].Index
		o := c.op(in.Cond)
		if mt := c.tryMerge(b, in); mt != nil {
			return mt
		}
		return func(fr *Frame) int {
			v := o.get(fr)
			if v.R != nil {
				if m.branch(v.R.(*Term)) {
					return t
				}
				return f
			}
			if v.N != 0 {
				return t
			}
			return f
		}
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			return func(fr *Frame) int { fr.result = Value{}; return -1 }
		case 1:
			o := c.op(in.Results[0])
			return func(fr *Frame) int { fr.result = o.get(fr); return -1 }
		default:
			var os []opnd
			for _, r := range in.Results {
				os = append(os, c.op(r))
			}
			return func(fr *Frame) int {
				tp := make(Tuple, len(os))
				for i := range os {
					tp[i] = os[i].get(fr)
				}
				fr.result = Value{R: tp}
				return -1
			}
		}
	case *ssa.Panic:
		o := c.op(in.X)
		return func(fr *Frame) int {
			v := o.get(fr)
			if v.R == nil {
				m.rtPanic("panic called with nil argument")
			}
			panic(&targetPanic{v: v, where: strings.Join(m.stack(), " < ")})
		}
	}
	panic(fmt.Sprintf("terminator %T", in))
}

// tryMerge handles short-circuit chains:  b: if x goto T else F  where T (or F) is a block
// containing only pure scalar instructions followed by a jump/if to shared successors.
func (c *compiler) tryMerge(b *ssa.BasicBlock, in *ssa.If) termFn { return nil }

func (c *compiler) set(dst int, f func(fr *Frame) Value) instrFn {
	return func(fr *Frame) { fr.regs[dst] = f(fr) }
}

func (c *compiler) instr(in ssa.Instruction) instrFn {
	m := c.m
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *Frame) {
				p := new(Value)
				*p = m.zero(t)
				fr.regs[dst] = Value{R: p}
			}
		}
		return func(fr *Frame) { fr.regs[dst] = Value{R: new(Value)} }
	case *ssa.BinOp:
		return c.binop(in, dst)
	case *ssa.UnOp:
		return c.unop(in, dst)
	case *ssa.ChangeType:
		o := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.ChangeInterface:
		o := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		f := m.conv(in.X.Type(), in.Type())
		o := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = f(o.get(fr)) }
	case *ssa.MultiConvert:
		f := m.conv(in.X.Type(), in.Type())
		o := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = f(o.get(fr)) }
	case *ssa.MakeInterface:
		t := in.X.Type()
		o := c.op(in.X)
		return func(fr *Frame) { fr.regs[dst] = Value{R: &Iface{T: t, V: copyVal(o.get(fr))}} }
	case *ssa.Extract:
		o := c.op(in.Tuple)
		i := in.Index
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).R.(Tuple)[i] }
	case *ssa.FieldAddr:
		o := c.op(in.X)
		i := in.Field
		return func(fr *Frame) {
			v := o.get(fr)
			var p *Value
			if q, ok := v.R.(*Value); ok {
				p = q
			} else {
				p = m.ptr(v)
			}
			st, ok := p.R.(*Struct)
			if !ok {
				m.badAgg(p)
			}
			fr.regs[dst] = Value{R: &st.F[i]}
		}
	case *ssa.Field:
		o := c.op(in.X)
		i := in.Field
		return func(fr *Frame) { fr.regs[dst] = o.get(fr).R.(*Struct).F[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(in, dst)
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		it := in.Index.Type()
		if isString(in.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = m.strIndex(x.get(fr), ix.get(fr), it) }
		}
		w := m.width(in.Type())
		return func(fr *Frame) {
			e := x.get(fr).R.(*Array).E
			i := ix.get(fr)
			if tm, ok := i.R.(*Term); ok {
				t := m.boundsTerm(tm, it, len(e))
				if w >= 0 {
					fr.regs[dst] = m.symRead(e, t, w)
				} else {
					fr.regs[dst] = copyVal(e[m.concretize(t)])
				}
				return
			}
			if int64(i.N) < 0 || int64(i.N) >= int64(len(e)) {
				m.oob(i, len(e))
			}
			fr.regs[dst] = copyVal(e[i.N])
		}
	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		if isString(in.X.Type()) {
			it := in.Index.Type()
			return func(fr *Frame) { fr.regs[dst] = m.strIndex(x.get(fr), ix.get(fr), it) }
		}
		commaOk := in.CommaOk
		et := in.X.Type().Underlying().(*types.Map).Elem()
		kt := in.X.Type().Underlying().(*types.Map).Key()
		track, where := c.f.track, c.f.name
		return func(fr *Frame) {
			mv := x.get(fr)
			k := ix.get(fr)
			if m.races != nil && track {
				m.access(mv.R, false, where)
			}
			var e *MapEnt
			if mv.R != nil {
				e = m.mapFind(mv.R.(*Map), k)
			} else {
				m.mapKey(kt, k) // may panic on unhashable keys
			}
			var v Value
			if e != nil {
				v = copyVal(e.V)
			} else {
				v = m.zero(et)
			}
			if commaOk {
				fr.regs[dst] = Value{R: Tuple{v, bval(e != nil)}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		track, where := c.f.track, c.f.name
		return func(fr *Frame) {
			mv := x.get(fr)
			if mv.R == nil {
				m.targetPanicText("assignment to entry in nil map")
			}
			if m.races != nil && track {
				m.access(mv.R, true, where)
			}
			m.mapSet(mv.R.(*Map), k.get(fr), copyVal(v.get(fr)))
		}
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) { fr.regs[dst] = Value{R: m.newMap(kt)} }
	case *ssa.MakeChan:
		o := c.op(in.Size)
		return func(fr *Frame) { fr.regs[dst] = Value{R: &Chan{cap: int(m.conc(o.get(fr)))}} }
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		lt, ct := in.Len.Type(), in.Cap.Type()
		return func(fr *Frame) {
			ln := m.sizeArg(l.get(fr), lt, "makeslice: len out of range")
			cn := m.sizeArg(cp.get(fr), ct, "makeslice: cap out of range")
			if ln > cn {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[dst] = Value{R: &Slice{E: m.makeElems(et, ln, cn)}}
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var os []opnd
		for _, b := range in.Bindings {
			os = append(os, c.op(b))
		}
		return func(fr *Frame) {
			env := make([]Value, len(os))
			for i := range os {
				env[i] = os[i].get(fr)
			}
			fr.regs[dst] = Value{R: &Closure{Fn: fn, Env: env}}
		}
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.SliceToArrayPointer:
		o := c.op(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			v := o.get(fr)
			e := sliceElems(v)
			if len(e) < n {
				m.rtPanic("cannot convert slice to array pointer: length too short")
			}
			if v.R == nil {
				fr.regs[dst] = Value{}
				return
			}
			p := new(Value)
			*p = Value{R: &Array{E: e[:n:n]}}
			fr.regs[dst] = Value{R: p}
		}
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		target, track, where := c.f.target, c.f.track, c.f.name
		return func(fr *Frame) {
			av := a.get(fr)
			if target && m.interleave == 2 {
				m.memPoint(av)
			}
			if m.races != nil && track {
				m.access(av.R, true, where)
			}
			if sp, ok := av.R.(*SymPtr); ok && sp.W >= 0 {
				nv := m.term(v.get(fr), sp.W)
				for i := range sp.E {
					c := m.tt.Eq(sp.I, m.tt.Const(uint64(i), sp.I.w))
					if c == m.tt.False {
						continue
					}
					m.setCell(&sp.E[i], m.val(m.tt.Ite(c, nv, m.term(sp.E[i], sp.W))))
				}
				return
			}
			p, ok := av.R.(*Value)
			if !ok {
				p = m.ptr(av)
			}
			m.storeTo(p, v.get(fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, dst)
	case *ssa.Range:
		o := c.op(in.X)
		if isString(in.X.Type()) {
			return func(fr *Frame) { fr.regs[dst] = Value{R: &strIter{b: o.get(fr)}} }
		}
		target, track, where := c.f.target, c.f.track, c.f.name
		return func(fr *Frame) {
			v := o.get(fr)
			it := &mapIter{}
			if m.races != nil && track {
				m.access(v.R, false, where)
			}
			if v.R != nil {
				mp := v.R.(*Map)
				it.ents = append(it.ents, mp.ents...)
				it.shuffle = m.mapOrder && target
			}
			fr.regs[dst] = Value{R: it}
		}
	case *ssa.Next:
		o := c.op(in.Iter)
		if in.IsString {
			return func(fr *Frame) { fr.regs[dst] = m.strNext(o.get(fr).R.(*strIter)) }
		}
		tt := in.Type().(*types.Tuple)
		return func(fr *Frame) { fr.regs[dst] = m.mapNext(o.get(fr).R.(*mapIter), tt) }
	case *ssa.Call:
		f := c.call(&in.Call, in)
		return func(fr *Frame) { fr.regs[dst] = f(fr) }
	case *ssa.Defer:
		return c.deferI(in)
	case *ssa.Go:
		prep := c.prepCall(&in.Call, in)
		return func(fr *Frame) {
			run := prep(fr)
			m.spawn(func() { run(nil) })
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { m.runDefers(fr) }
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		return func(fr *Frame) { m.chanSend(ch.get(fr), x.get(fr)) }
	case *ssa.Select:
		return c.selectI(in, dst)
	case *ssa.DebugRef:
		return func(fr *Frame) {}
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (m *Machine) badAgg(p *Value) {
	if ps, ok := p.R.(poison); ok {
		m.unsupported("uninitialised global " + ps.name)
	}
	m.unsupported(fmt.Sprintf("field of %T", p.R))
}

func (m *Machine) targetPanicText(msg string) {
	if os.Getenv("GOSYMEX_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "target panic:", msg, m.whereStr())
	}
	v := m.runtimeError(msg)
	panic(&targetPanic{v: v, rt: "panic: " + msg, where: strings.Join(m.stack(), " < ")})
}

func (m *Machine) oob(i Value, n int) {
	m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), n))
}

// boundsTerm forks on the index being in range; returns the 64-bit index term.
func (m *Machine) boundsTerm(t *Term, it types.Type, n int) *Term {
	if isSigned(it) {
		t = m.tt.Sext(t, 64)
	} else {
		t = m.tt.Zext(t, 64)
	}
	in := m.tt.Cmp(OULt, t, m.tt.Const(uint64(n), 64))
	if !m.branch(in) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(m.tt.Eval(t, m.model)), n))
	}
	return t
}

func (m *Machine) strIndex(s, i Value, it types.Type) Value {
	n := strLen(s)
	if tm, ok := i.R.(*Term); ok {
		t := m.boundsTerm(tm, it, n)
		b := strBytes(s)
		e := make([]Value, n)
		for k := range b {
			e[k] = m.byteVal(b[k])
		}
		return m.symRead(e, t, 8)
	}
	if int64(i.N) < 0 || int64(i.N) >= int64(n) {
		m.oob(i, n)
	}
	switch r := s.R.(type) {
	case string:
		return Value{N: uint64(r[i.N])}
	case *SymStr:
		return m.byteVal(r.B[i.N])
	}
	panic("strIndex")
}

func (m *Machine) sizeArg(v Value, t types.Type, msg string) int {
	w := m.width(t)
	if tm, ok := v.R.(*Term); ok {
		if isSigned(t) {
			tm = m.tt.Sext(tm, 64)
		} else {
			tm = m.tt.Zext(tm, 64)
		}
		if !m.branch(m.tt.Cmp(OULe, tm, m.tt.Const(uint64(m.eng.maxAlloc), 64))) {
			// too large: out of range panic, or an allocation the harness bounds
			m.hugeAlloc(tm, msg)
		}
		return int(m.concretize(tm))
	}
	n := int64(v.N)
	if isSigned(t) {
		n = sext64(v.N, uint8(w))
	}
	if n < 0 || n > m.eng.maxAlloc {
		m.hugeAlloc(m.tt.Const(uint64(n), 64), msg)
	}
	return int(n)
}

func (m *Machine) hugeAlloc(t *Term, msg string) {
	n := m.tt.Eval(t, m.model)
	m.rtPanic(fmt.Sprintf("%s (allocation of %d elements)", msg, int64(n)))
}

func (m *Machine) makeElems(et types.Type, ln, cn int) []Value {
	e := make([]Value, ln, cn)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		e = e[:cn]
		for i := range e {
			e[i] = m.zero(et)
		}
		e = e[:ln]
	}
	m.allocs += int64(cn)
	if m.allocs > 200_000_000 {
		panic(&pathAbort{kind: "budget", msg: "memory" + m.whereStr()})
	}
	return e
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) instrFn {
	m := c.m
	x, ix := c.op(in.X), c.op(in.Index)
	it := in.Index.Type()
	var et types.Type
	isArr := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		et = u.Elem().Underlying().(*types.Array).Elem()
		isArr = true
	}
	w := m.width(et)
	return func(fr *Frame) {
		v := x.get(fr)
		var e []Value
		if isArr {
			p, ok := v.R.(*Value)
			if !ok {
				p = m.ptr(v)
			}
			a, ok := p.R.(*Array)
			if !ok {
				m.badAgg(p)
			}
			e = a.E
		} else if v.R != nil {
			e = v.R.(*Slice).E
		}
		i := ix.get(fr)
		if tm, ok := i.R.(*Term); ok {
			t := m.boundsTerm(tm, it, len(e))
			if w >= 0 {
				fr.regs[dst] = Value{R: &SymPtr{E: e, I: t, W: w}}
			} else {
				fr.regs[dst] = Value{R: &e[m.concretize(t)]}
			}
			return
		}
		n := i.N
		if n >= uint64(len(e)) {
			m.oob(i, len(e))
		}
		fr.regs[dst] = Value{R: &e[n]}
	}
}

func (c *compiler) slice(in *ssa.Slice, dst int) instrFn {
	m := c.m
	x := c.op(in.X)
	get := func(v ssa.Value) func(fr *Frame, def int) int {
		if v == nil {
			return func(fr *Frame, def int) int { return def }
		}
		o := c.op(v)
		t := v.Type()
		w := m.width(t)
		sg := isSigned(t)
		return func(fr *Frame, def int) int {
			y := o.get(fr)
			if tm, ok := y.R.(*Term); ok {
				if sg {
					tm = m.tt.Sext(tm, 64)
				} else {
					tm = m.tt.Zext(tm, 64)
				}
				// out of range values are all alike: a panic
				if !m.branch(m.tt.Cmp(OULe, tm, m.tt.Const(1<<40, 64))) {
					return -1
				}
				return m.concSlice(tm)
			}
			if sg {
				return int(sext64(y.N, uint8(w)))
			}
			return int(y.N)
		}
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	isStr := isString(in.X.Type())
	_, isPtr := in.X.Type().Underlying().(*types.Pointer)
	hasMax := in.Max != nil
	return func(fr *Frame) {
		v := x.get(fr)
		if isStr {
			n := strLen(v)
			m.sliceCap = n
			h := hi(fr, n)
			m.sliceCap = h
			l := lo(fr, 0)
			if h < 0 || h > n {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = m.strSlice(v, l, h)
			return
		}
		var e []Value
		wasNil := false
		if isPtr {
			p, ok := v.R.(*Value)
			if !ok {
				p = m.ptr(v)
			}
			a, ok := p.R.(*Array)
			if !ok {
				m.badAgg(p)
			}
			e = a.E
		} else if v.R != nil {
			e = v.R.(*Slice).E
		} else {
			wasNil = true
		}
		n, cp := len(e), cap(e)
		m.sliceCap = cp
		h := hi(fr, n)
		l := lo(fr, 0)
		x := cp
		if hasMax {
			x = mx(fr, cp)
			if x < 0 || x > cp {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", x, cp))
			}
		}
		if h < 0 || h > x {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, x))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if wasNil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{R: &Slice{E: e[l:h:x]}}
	}
}

// concSlice concretizes a slice bound: values above the capacity are one class (they panic).
func (m *Machine) concSlice(t *Term) int {
	lim := uint64(m.sliceCap)
	if !m.branch(m.tt.Cmp(OULe, t, m.tt.Const(lim, 64))) {
		return int(m.tt.Eval(t, m.model))
	}
	return int(m.concretize(t))
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) instrFn {
	m := c.m
	o := c.op(in.X)
	at := in.AssertedType
	commaOk := in.CommaOk
	it, isIface := at.Underlying().(*types.Interface)
	aid := 0
	if !isIface {
		aid = m.typeID(at)
	}
	return func(fr *Frame) {
		v := o.get(fr)
		ok := false
		var r Value
		if v.R != nil {
			x := v.R.(*Iface)
			if isIface {
				if m.implements(x.T, it) {
					ok = true
					r = v
				}
			} else if m.typeID(x.T) == aid {
				ok = true
				r = copyVal(x.V)
			}
		}
		if commaOk {
			if !ok {
				r = m.zero(at)
			}
			fr.regs[dst] = Value{R: Tuple{r, bval(ok)}}
			return
		}
		if !ok {
			if v.R == nil {
				m.targetPanicText(fmt.Sprintf("interface conversion: interface is nil, not %s", at))
			}
			m.targetPanicText(fmt.Sprintf("interface conversion: interface is %s, not %s", v.R.(*Iface).T, at))
		}
		fr.regs[dst] = r
	}
}

type implKey struct {
	t  int
	it *types.Interface
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{m.typeID(t), it}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	m.implCache[k] = r
	return r
}

type strIter struct {
	b   Value
	pos int
}
type mapIter struct {
	ents    []*MapEnt
	pos     int
	shuffle bool
}

func (m *Machine) mapNext(it *mapIter, tt *types.Tuple) Value {
	for it.pos < len(it.ents) {
		if it.shuffle && len(it.ents)-it.pos > 1 {
			k := m.orderChoice(len(it.ents) - it.pos)
			if k != 0 {
				ne := append([]*MapEnt{}, it.ents...)
				ne[it.pos], ne[it.pos+k] = ne[it.pos+k], ne[it.pos]
				it.ents = ne
			}
		}
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Value{R: Tuple{bval(true), e.K, copyVal(e.V)}}
	}
	return Value{R: Tuple{Value{}, Value{}, Value{}}}
}

func (m *Machine) orderChoice(n int) int {
	v := m.newVar("maporder", 8, "maporder")
	m.assume(m.tt.Cmp(OULt, v, m.tt.Const(uint64(n), 8)))
	return int(m.concretize(v))
}

func (m *Machine) strNext(it *strIter) Value {
	n := strLen(it.b)
	if it.pos >= n {
		return Value{R: Tuple{Value{}, Value{}, Value{}}}
	}
	r, w := m.decodeRune(m.strSlice(it.b, it.pos, n))
	k := ival(int64(it.pos))
	it.pos += w
	return Value{R: Tuple{bval(true), k, r}}
}

func (m *Machine) decodeRune(s Value) (Value, int) {
	var b0 sbyte
	switch r := s.R.(type) {
	case string:
		for i, c := range r {
			_ = i
			w := len(string(c))
			if c == 0xFFFD {
				// error or genuine
				if len(r) >= 3 && r[:3] == "\uFFFD" {
					w = 3
				} else {
					w = 1
				}
			}
			return Value{N: uint64(uint32(c))}, w
		}
	case *SymStr:
		b0 = r.B[0]
	}
	if b0.T == nil && b0.C < 0x80 {
		return Value{N: uint64(b0.C)}, 1
	}
	t := m.bt(b0)
	if m.branch(m.tt.Cmp(OULt, t, m.tt.Const(0x80, 8))) {
		return m.val(m.tt.Zext(t, 32)), 1
	}
	fn := m.eng.lookupFunc("unicode/utf8", "DecodeRuneInString")
	r := m.callFn(m.curFrame(), fn, []Value{s}, nil).R.(Tuple)
	return r[0], int(m.conc(r[1]))
}

// ---- calls

func (c *compiler) args(call *ssa.CallCommon) []opnd {
	var os []opnd
	for _, a := range call.Args {
		os = append(os, c.op(a))
	}
	return os
}

func (c *compiler) call(call *ssa.CallCommon, site ssa.Instruction) func(fr *Frame) Value {
	m := c.m
	os := c.args(call)
	eval := func(fr *Frame) []Value {
		a := make([]Value, len(os))
		for i := range os {
			a[i] = os[i].get(fr)
		}
		return a
	}
	if call.IsInvoke() {
		x := c.op(call.Value)
		meth := call.Method
		return func(fr *Frame) Value {
			v := x.get(fr)
			if v.R == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			ifc, ok := v.R.(*Iface)
			if !ok {
				if ps, ok := v.R.(poison); ok {
					m.unsupported("uninitialised global " + ps.name)
				}
			}
			fn := m.method(ifc.T, meth)
			a := make([]Value, len(os)+1)
			a[0] = ifc.V
			for i := range os {
				a[i+1] = os[i].get(fr)
			}
			return m.callFn(fr, fn, a, nil)
		}
	}
	switch f := call.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, call, site)
	case *ssa.Function:
		var cf *Func
		return func(fr *Frame) Value {
			if cf == nil {
				cf = m.getFunc(f)
			}
			return m.callF(fr, cf, eval(fr), nil)
		}
	}
	x := c.op(call.Value)
	return func(fr *Frame) Value {
		return m.callValue(fr, x.get(fr), eval(fr))
	}
}

func (m *Machine) callValue(fr *Frame, f Value, args []Value) Value {
	if f.R == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	cl, ok := f.R.(*Closure)
	if !ok {
		if ps, ok := f.R.(poison); ok {
			m.unsupported("uninitialised global " + ps.name)
		}
		m.unsupported(fmt.Sprintf("call of %T", f.R))
	}
	if cl.Native != nil {
		return cl.Native(m, fr, args)
	}
	return m.callFn(fr, cl.Fn, args, cl.Env)
}

func (m *Machine) callFn(fr *Frame, fn *ssa.Function, args, env []Value) Value {
	return m.callF(fr, m.getFunc(fn), args, env)
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	fn := m.findMethod(t, meth.Name(), meth.Pkg())
	if fn == nil {
		m.unsupported("method " + meth.String() + " not found on " + t.String())
	}
	return fn
}

func (m *Machine) findMethod(t types.Type, name string, pkg *types.Package) *ssa.Function {
	if token.IsExported(name) {
		pkg = nil
	}
	k := methodKey{m.typeID(t), name, pkg}
	if fn, ok := m.methods[k]; ok {
		return fn
	}
	m.eng.progMu.Lock()
	defer m.eng.progMu.Unlock()
	sel := m.eng.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		m.methods[k] = nil
		return nil
	}
	fn := m.eng.prog.MethodValue(sel)
	m.methods[k] = fn
	return fn
}

const maxDepth = 3000

func (m *Machine) callF(caller *Frame, f *Func, args, env []Value) Value {
	if f.native != nil {
		return f.native(m, caller, f.fn, args)
	}
	if f.target && m.cover != nil {
		m.cover[f] = true
	}
	fr := &Frame{fn: f, caller: caller}
	fr.regs = make([]Value, f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	th := m.cur
	old := th.fr
	th.fr = fr
	th.depth++
	if th.depth > maxDepth {
		m.violation("stackoverflow", "unbounded recursion", m.model)
	}
	if f.fn.Recover != nil || f.hasDefer {
		m.runWithDefers(fr)
	} else {
		m.exec(fr, 0)
	}
	th.depth--
	th.fr = old
	return fr.result
}

func (m *Machine) exec(fr *Frame, start int) {
	f := fr.fn
	bi := start
	prev := -1
	for {
		b := &f.blocks[bi]
		if len(b.phis) > 0 {
			ei := 0
			for i, p := range b.preds {
				if p == prev {
					ei = i
					break
				}
			}
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = p.ops[ei].get(fr)
			} else {
				var tmpa [8]Value
				tmp := tmpa[:0]
				for i := range b.phis {
					tmp = append(tmp, b.phis[i].ops[ei].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for i, in := range b.body {
			fr.pos = b.ins[i]
			in(fr)
		}
		m.steps += int64(len(b.body)) + 1
		if m.steps > m.maxSteps {
			if m.hangLimit > 0 {
				m.violation("hang", "does not terminate (step limit)", m.model)
			}
			panic(&pathAbort{kind: "budget", msg: "steps" + m.whereStr()})
		}
		fr.pos = b.tins
		n := b.term(fr)
		if n < 0 {
			return
		}
		prev = bi
		bi = n
	}
}

func (m *Machine) runWithDefers(fr *Frame) {
	th := m.cur
	depth := th.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			th.fr = fr
			th.depth = depth
			fr.panicking = true
			fr.panicVal = tp
		}()
		m.exec(fr, 0)
	}()
	if !fr.panicking {
		return
	}
	m.runDefers(fr)
	// recovered
	fr.panicVal = nil
	if fr.fn.fn.Recover != nil {
		m.exec(fr, fr.fn.fn.Recover.Index)
	} else {
		fr.result = m.zeroResult(fr.fn.fn)
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

// runDefers executes deferred calls; re-panics if still panicking afterwards.
func (m *Machine) runDefers(fr *Frame) {
	th := m.cur
	depth := th.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				th.fr = fr
				th.depth = depth
				fr.panicking = true
				fr.panicVal = tp
			}()
			d()
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (m *Machine) doRecover(caller *Frame) Value {
	// recover() is effective only when called directly by a deferred function
	if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		return caller.caller.panicVal.v
	}
	return Value{}
}

func (c *compiler) deferI(in *ssa.Defer) instrFn {
	prep := c.prepCall(&in.Call, in)
	return func(fr *Frame) {
		run := prep(fr)
		fr.defers = append(fr.defers, func() { run(fr) })
	}
}

// prepCall evaluates function and arguments now and returns the delayed call.
func (c *compiler) prepCall(call *ssa.CallCommon, site ssa.Instruction) func(fr *Frame) func(caller *Frame) {
	m := c.m
	os := c.args(call)
	if call.IsInvoke() {
		x := c.op(call.Value)
		meth := call.Method
		return func(fr *Frame) func(*Frame) {
			v := x.get(fr)
			if v.R == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			ifc := v.R.(*Iface)
			fn := m.method(ifc.T, meth)
			a := []Value{ifc.V}
			for i := range os {
				a = append(a, os[i].get(fr))
			}
			return func(caller *Frame) { m.callFn(caller, fn, a, nil) }
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(fr *Frame) func(*Frame) {
			// evaluate arguments now into a scratch frame
			vals := make([]Value, len(os))
			for i := range os {
				vals[i] = os[i].get(fr)
			}
			f := c.builtinVals(b, call, site)
			return func(caller *Frame) { f(fr, vals) }
		}
	}
	x := c.op(call.Value)
	return func(fr *Frame) func(*Frame) {
		f := x.get(fr)
		var a []Value
		for i := range os {
			a = append(a, os[i].get(fr))
		}
		return func(caller *Frame) { m.callValue(caller, f, a) }
	}
}

func (c *compiler) builtin(b *ssa.Builtin, call *ssa.CallCommon, site ssa.Instruction) func(fr *Frame) Value {
	os := c.args(call)
	f := c.builtinVals(b, call, site)
	return func(fr *Frame) Value {
		vals := make([]Value, len(os))
		for i := range os {
			vals[i] = os[i].get(fr)
		}
		return f(fr, vals)
	}
}

func (c *compiler) builtinVals(b *ssa.Builtin, call *ssa.CallCommon, site ssa.Instruction) func(fr *Frame, a []Value) Value {
	m := c.m
	track, where := c.f.track, c.f.name
	var ts []types.Type
	for _, a := range call.Args {
		ts = append(ts, a.Type())
	}
	switch b.Name() {
	case "len":
		return func(fr *Frame, a []Value) Value { return ival(int64(m.length(a[0], ts[0]))) }
	case "cap":
		return func(fr *Frame, a []Value) Value {
			switch u := ts[0].Underlying().(type) {
			case *types.Slice:
				return ival(int64(cap(sliceElems(a[0]))))
			case *types.Chan:
				if a[0].R == nil {
					return Value{}
				}
				return ival(int64(a[0].R.(*Chan).cap))
			case *types.Array:
				return ival(u.Len())
			case *types.Pointer:
				return ival(u.Elem().Underlying().(*types.Array).Len())
			}
			panic("cap")
		}
	case "append":
		et := ts[0].Underlying().(*types.Slice).Elem()
		srcStr := len(ts) > 1 && isString(ts[1])
		return func(fr *Frame, a []Value) Value {
			if len(a) == 1 {
				return a[0]
			}
			var src []Value
			if srcStr {
				src = sliceElems(m.strToSlice(a[1]))
			} else {
				src = sliceElems(a[1])
			}
			if len(src) == 0 {
				return a[0]
			}
			if m.races != nil && track {
				for i := range src {
					m.access(&src[i], false, where)
				}
				if d := sliceElems(a[0]); cap(d) >= len(d)+len(src) {
					d = d[:len(d)+len(src)]
					for i := len(d) - len(src); i < len(d); i++ {
						m.access(&d[i], true, where)
					}
				}
			}
			return m.appendVals(a[0], src, et)
		}
	case "copy":
		srcStr := isString(ts[1])
		return func(fr *Frame, a []Value) Value {
			d := sliceElems(a[0])
			var s []Value
			if srcStr {
				s = sliceElems(m.strToSlice(a[1]))
			} else {
				s = sliceElems(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			if m.races != nil && track {
				for i := 0; i < n; i++ {
					m.access(&s[i], false, where)
					m.access(&d[i], true, where)
				}
			}
			m.copyElems(d[:n], s[:n])
			return ival(int64(n))
		}
	case "delete":
		return func(fr *Frame, a []Value) Value {
			if a[0].R != nil {
				if m.races != nil && track {
					m.access(a[0].R, true, where)
				}
				m.mapDelete(a[0].R.(*Map), a[1])
			}
			return Value{}
		}
	case "clear":
		return func(fr *Frame, a []Value) Value {
			switch r := a[0].R.(type) {
			case *Map:
				for _, e := range append([]*MapEnt{}, r.ents...) {
					m.mapRemove(r, e)
				}
			case *Slice:
				et := ts[0].Underlying().(*types.Slice).Elem()
				for i := range r.E {
					m.storeTo(&r.E[i], m.zero(et))
				}
			}
			return Value{}
		}
	case "close":
		return func(fr *Frame, a []Value) Value {
			if a[0].R == nil {
				m.targetPanicText("close of nil channel")
			}
			ch := a[0].R.(*Chan)
			if ch.closed {
				m.targetPanicText("close of closed channel")
			}
			m.hbRelease(ch)
			ch.closed = true
			m.logFn(func() { ch.closed = false })
			return Value{}
		}
	case "print", "println":
		return func(fr *Frame, a []Value) Value { return Value{} }
	case "recover":
		return func(fr *Frame, a []Value) Value { return m.doRecover(fr) }
	case "panic":
		return func(fr *Frame, a []Value) Value {
			panic(&targetPanic{v: a[0], where: strings.Join(m.stack(), " < ")})
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []Value) Value {
			if a[0].R == nil {
				m.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := ts[0]
		return func(fr *Frame, a []Value) Value {
			r := a[0]
			for _, x := range a[1:] {
				var less Value
				if isMin {
					less = m.less(t, x, r)
				} else {
					less = m.less(t, r, x)
				}
				if tm, ok := less.R.(*Term); ok {
					if w := m.width(t); w > 0 && !isFloat(t) {
						r = m.val(m.tt.Ite(tm, m.term(x, w), m.term(r, w)))
						continue
					}
				}
				if m.truth(less) {
					r = x
				}
			}
			return r
		}
	case "String": // unsafe.String
		return func(fr *Frame, a []Value) Value {
			n := int(m.conc(a[1]))
			if n == 0 {
				return Value{}
			}
			sl, ok := a[0].R.(*Slice)
			if !ok {
				m.unsupported("unsafe.String of non slice data")
			}
			return m.bytesToStr(sl.E[:n])
		}
	case "SliceData":
		return func(fr *Frame, a []Value) Value { return a[0] }
	case "StringData":
		return func(fr *Frame, a []Value) Value { return m.strToSlice(a[0]) }
	case "Slice":
		return func(fr *Frame, a []Value) Value {
			n := int(m.conc(a[1]))
			sl, ok := a[0].R.(*Slice)
			if !ok {
				if n == 0 {
					return Value{}
				}
				m.unsupported("unsafe.Slice of non slice data")
			}
			return Value{R: &Slice{E: sl.E[:n:n]}}
		}
	case "Sizeof":
		if _, ok := types.Unalias(ts[0]).(*types.TypeParam); !ok {
			n := ival(types.SizesFor("gc", "amd64").Sizeof(ts[0]))
			return func(fr *Frame, a []Value) Value { return n }
		}
	case "real", "imag", "complex":
		nm := b.Name()
		return func(fr *Frame, a []Value) Value { m.unsupported("builtin " + nm); return Value{} }
	}
	nm := b.Name()
	return func(fr *Frame, a []Value) Value { m.unsupported("builtin " + nm); return Value{} }
}

func (m *Machine) length(v Value, t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return strLen(v)
	case *types.Slice:
		return len(sliceElems(v))
	case *types.Map:
		if v.R == nil {
			return 0
		}
		return v.R.(*Map).n
	case *types.Array:
		return int(u.Len())
	case *types.Pointer:
		return int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Chan:
		if v.R == nil {
			return 0
		}
		return len(v.R.(*Chan).buf)
	}
	panic("len of " + t.String())
}

func (m *Machine) copyElems(d, s []Value) {
	if len(d) == 0 {
		return
	}
	// overlapping: choose direction via temp when aggregates or same backing
	if &d[0] == &s[0] {
		return
	}
	tmp := make([]Value, len(s))
	for i := range s {
		tmp[i] = copyVal(s[i])
	}
	for i := range d {
		m.storeTo(&d[i], tmp[i])
	}
}

func (m *Machine) appendVals(dst Value, src []Value, et types.Type) Value {
	e := sliceElems(dst)
	n := len(e)
	need := n + len(src)
	if need <= cap(e) {
		ne := e[:need]
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			m.setCell(&ne[n+i], tmp[i])
		}
		return Value{R: &Slice{E: ne}}
	}
	nc := cap(e) * 2
	if cap(e) > 256 {
		nc = cap(e) + cap(e)/4 + 192
	}
	if nc < need {
		nc = need
	}
	if nc < 4 {
		nc = 4
	}
	ne := make([]Value, need, nc)
	for i := range e {
		ne[i] = copyVal(e[i])
	}
	for i := range src {
		ne[n+i] = copyVal(src[i])
	}
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		full := ne[:nc]
		for i := need; i < nc; i++ {
			full[i] = m.zero(et)
		}
	}
	m.allocs += int64(nc)
	if m.allocs > 200_000_000 {
		panic(&pathAbort{kind: "budget", msg: "memory" + m.whereStr()})
	}
	return Value{R: &Slice{E: ne}}
}

// ---- channels

func (m *Machine) chanSend(cv, v Value) {
	m.syncPoint()
	if cv.R == nil {
		m.blockUntil(func() bool { return false })
	}
	ch := cv.R.(*Chan)
	if ch.closed {
		m.targetPanicText("send on closed channel")
	}
	m.hbRelease(ch)
	defer m.hbAcquire(ch)
	if ch.cap > 0 {
		m.blockUntil(func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			m.targetPanicText("send on closed channel")
		}
		old := ch.buf
		ch.buf = append(append([]Value{}, old...), copyVal(v))
		m.logFn(func() { ch.buf = old })
		return
	}
	s := &chanSend{v: copyVal(v)}
	old := ch.sendq
	ch.sendq = append(append([]*chanSend{}, old...), s)
	m.logFn(func() { ch.sendq = old })
	m.blockUntil(func() bool { return s.taken || ch.closed })
	if !s.taken {
		m.targetPanicText("send on closed channel")
	}
}

func (ch *Chan) canRecv() bool { return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed }

func (m *Machine) takeRecv(ch *Chan) (Value, bool) {
	if len(ch.buf) > 0 {
		old := ch.buf
		v := old[0]
		ch.buf = append([]Value{}, old[1:]...)
		m.logFn(func() { ch.buf = old })
		return v, true
	}
	if len(ch.sendq) > 0 {
		old := ch.sendq
		s := old[0]
		ch.sendq = append([]*chanSend{}, old[1:]...)
		s.taken = true
		m.logFn(func() { ch.sendq = old; s.taken = false })
		return s.v, true
	}
	return Value{}, false
}

func (m *Machine) chanRecv(cv Value, et types.Type) (Value, bool) {
	m.syncPoint()
	if cv.R == nil {
		m.blockUntil(func() bool { return false })
	}
	ch := cv.R.(*Chan)
	m.hbRelease(ch)
	defer m.hbAcquire(ch)
	ch.recvWait++
	m.blockUntil(ch.canRecv)
	ch.recvWait--
	v, ok := m.takeRecv(ch)
	if !ok {
		v = m.zero(et)
	}
	return v, ok
}

func (c *compiler) selectI(in *ssa.Select, dst int) instrFn {
	m := c.m
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{ch: c.op(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			x.v = c.op(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *Frame) {
		m.syncPoint()
		chs := make([]*Chan, len(sts))
		for i := range sts {
			if v := sts[i].ch.get(fr); v.R != nil {
				chs[i] = v.R.(*Chan)
			}
		}
		ready := func() int {
			for i, ch := range chs {
				if ch == nil {
					continue
				}
				if sts[i].send {
					if ch.closed || len(ch.buf) < ch.cap || ch.recvWait > len(ch.sendq) {
						return i
					}
				} else if ch.canRecv() {
					return i
				}
			}
			return -1
		}
		if blocking {
			for i, ch := range chs {
				if ch != nil && !sts[i].send {
					ch.recvWait++
				}
			}
			m.blockUntil(func() bool { return ready() >= 0 })
			for i, ch := range chs {
				if ch != nil && !sts[i].send {
					ch.recvWait--
				}
			}
		}
		k := ready()
		if k >= 0 {
			m.hbRelease(chs[k])
			m.hbAcquire(chs[k])
		}
		tp := Tuple{ival(int64(k)), Value{}}
		for i := range sts {
			if sts[i].send {
				continue
			}
			v := Value{}
			if i == k {
				var ok bool
				v, ok = m.takeRecv(chs[i])
				if !ok {
					v = m.zero(sts[i].et)
				}
				tp[1] = bval(ok)
			} else {
				v = m.zero(sts[i].et)
			}
			tp = append(tp, v)
		}
		fr.regs[dst] = Value{R: tp}
		if k >= 0 && sts[k].send {
			m.chanSend(Value{R: chs[k]}, sts[k].v.get(fr))
		}
	}
}

// memPoint: preemption point at a memory access of the code under test.
func (m *Machine) memPoint(addr Value) {
	m.syncPoint()
}
