package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is any Go value. Scalars: N (masked to width), or R=*Term when symbolic.
// Everything else lives in R; R==nil is the zero reference (nil pointer/map/iface/"", ...).
type Value struct {
	N uint64
	R any
}

type Struct struct{ F []Value }
type Array struct{ E []Value }
type Slice struct{ E []Value }
type sbyte struct {
	C byte
	T *Term
}
type SymStr struct{ B []sbyte }
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	Fn     *ssa.Function
	Env    []Value
	Native func(m *Machine, fr *Frame, args []Value) Value
	Name   string
}
type SymPtr struct {
	E []Value
	I *Term
	W int // element width, -1 when not a scalar
}
type poison struct{ name string }
type Tuple []Value

// ---- maps

type MapEnt struct {
	K    Value
	V    Value
	dead bool
}
type Map struct {
	ents []*MapEnt
	idx  map[string]*MapEnt // concrete keys
	syms int                // number of live entries with symbolic keys
	n    int
	kt   types.Type
}

type Chan struct {
	buf      []Value
	cap      int
	closed   bool
	sendq    []*chanSend
	recvWait int
}
type chanSend struct {
	v     Value
	taken bool
}

func (m *Machine) newMap(kt types.Type) *Map {
	return &Map{idx: map[string]*MapEnt{}, kt: kt}
}

// mapKey gives a canonical key string for concrete keys (ok=false if symbolic).
// Unhashable values raise a target panic.
func (m *Machine) mapKey(t types.Type, v Value) (string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := m.concStr(v)
			return s, ok
		}
		if _, ok := v.R.(*Term); ok {
			return "", false
		}
		if u.Info()&types.IsFloat != 0 {
			f := toF(v.N, uint8(m.width(t)))
			if f == 0 {
				return "f0", true
			}
			if f != f {
				m.nanCount++
				return fmt.Sprintf("nan%d", m.nanCount), true
			}
		}
		if v.R != nil {
			return fmt.Sprintf("%p", v.R), true
		}
		var b [8]byte
		for i := range b {
			b[i] = byte(v.N >> (8 * i))
		}
		return string(b[:]), true
	case *types.Interface:
		if v.R == nil {
			return "nil", true
		}
		ifc := v.R.(*Iface)
		if !types.Comparable(ifc.T) {
			m.rtPanic("hash of unhashable type " + ifc.T.String())
		}
		k, ok := m.mapKey(ifc.T, ifc.V)
		return fmt.Sprintf("%d:%s", m.typeID(ifc.T), k), ok
	case *types.Pointer, *types.Chan:
		return fmt.Sprintf("%p", v.R), true
	case *types.Struct:
		var sb strings.Builder
		st := v.R.(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			k, ok := m.mapKey(u.Field(i).Type(), st.F[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *types.Array:
		var sb strings.Builder
		st := v.R.(*Array)
		for i := range st.E {
			k, ok := m.mapKey(u.Elem(), st.E[i])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	}
	m.rtPanic("hash of unhashable type " + t.String())
	return "", false
}

func (m *Machine) mapFind(mp *Map, k Value) *MapEnt {
	if mp == nil {
		return nil
	}
	ks, conc := m.mapKey(mp.kt, k)
	if conc {
		if e, ok := mp.idx[ks]; ok {
			return e
		}
		if mp.syms == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := m.mapKey(mp.kt, e.K); c {
				continue
			}
		}
		eq := m.eq(mp.kt, e.K, k)
		if m.truth(eq) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *Map, k, v Value) {
	e := m.mapFind(mp, k)
	if e != nil {
		m.setCell(&e.V, v)
		return
	}
	ks, conc := m.mapKey(mp.kt, k)
	e = &MapEnt{K: k, V: v}
	mp.ents = append(mp.ents, e)
	mp.n++
	if conc {
		mp.idx[ks] = e
	} else {
		mp.syms++
	}
	m.logFn(func() {
		mp.ents = mp.ents[:len(mp.ents)-1]
		mp.n--
		if conc {
			delete(mp.idx, ks)
		} else {
			mp.syms--
		}
	})
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapRemove(mp, e)
}

func (m *Machine) mapRemove(mp *Map, e *MapEnt) {
	ks, conc := m.mapKey(mp.kt, e.K)
	old := mp.ents
	ne := make([]*MapEnt, 0, len(old))
	for _, x := range old {
		if x != e {
			ne = append(ne, x)
		}
	}
	mp.ents = ne
	e.dead = true
	mp.n--
	if conc {
		delete(mp.idx, ks)
	} else {
		mp.syms--
	}
	m.logFn(func() {
		mp.ents = old
		e.dead = false
		mp.n++
		if conc {
			mp.idx[ks] = e
		} else {
			mp.syms++
		}
	})
}

// ---- strings

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{R: s}
}

func (m *Machine) mkSym(b []sbyte) Value {
	if len(b) == 0 {
		return Value{}
	}
	for i := range b {
		if b[i].T != nil {
			return Value{R: &SymStr{B: b}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = b[i].C
	}
	return Value{R: string(bs)}
}

func strLen(v Value) int {
	switch r := v.R.(type) {
	case nil:
		return 0
	case string:
		return len(r)
	case *SymStr:
		return len(r.B)
	}
	panic(fmt.Sprintf("strLen %T", v.R))
}

func (m *Machine) concStr(v Value) (string, bool) {
	switch r := v.R.(type) {
	case nil:
		return "", true
	case string:
		return r, true
	}
	return "", false
}

func strBytes(v Value) []sbyte {
	switch r := v.R.(type) {
	case nil:
		return nil
	case string:
		b := make([]sbyte, len(r))
		for i := 0; i < len(r); i++ {
			b[i].C = r[i]
		}
		return b
	case *SymStr:
		return r.B
	}
	panic(fmt.Sprintf("strBytes %T", v.R))
}

func (m *Machine) byteVal(b sbyte) Value {
	if b.T != nil {
		return Value{R: b.T}
	}
	return Value{N: uint64(b.C)}
}

func valByte(v Value) sbyte {
	if t, ok := v.R.(*Term); ok {
		return sbyte{T: t}
	}
	return sbyte{C: byte(v.N)}
}

func (m *Machine) bt(b sbyte) *Term {
	if b.T != nil {
		return b.T
	}
	return m.tt.Const(uint64(b.C), 8)
}

func (m *Machine) strEq(a, b Value) Value {
	la, lb := strLen(a), strLen(b)
	if la != lb {
		return Value{}
	}
	if sa, ok := m.concStr(a); ok {
		if sb, ok := m.concStr(b); ok {
			return bval(sa == sb)
		}
	}
	x, y := strBytes(a), strBytes(b)
	for i := range x { // quick reject
		if x[i].T == nil && y[i].T == nil && x[i].C != y[i].C {
			return Value{}
		}
	}
	t := m.tt.True
	for i := range x {
		t = m.tt.And(t, m.tt.Eq(m.bt(x[i]), m.bt(y[i])))
	}
	return m.val(t)
}

// strLess: a < b (orEq: a <= b)
func (m *Machine) strLess(a, b Value, orEq bool) Value {
	if sa, ok := m.concStr(a); ok {
		if sb, ok := m.concStr(b); ok {
			if orEq {
				return bval(sa <= sb)
			}
			return bval(sa < sb)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var res *Term
	if orEq {
		res = m.tt.Bool(len(x) <= len(y))
	} else {
		res = m.tt.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := m.bt(x[i]), m.bt(y[i])
		res = m.tt.Or(m.tt.Cmp(OULt, p, q), m.tt.And(m.tt.Eq(p, q), res))
	}
	return m.val(res)
}

func (m *Machine) strConcat(a, b Value) Value {
	if a.R == nil {
		return b
	}
	if b.R == nil {
		return a
	}
	if sa, ok := m.concStr(a); ok {
		if sb, ok := m.concStr(b); ok {
			return Value{R: sa + sb}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]sbyte, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return m.mkSym(r)
}

func (m *Machine) strSlice(v Value, lo, hi int) Value {
	switch r := v.R.(type) {
	case nil:
		return Value{}
	case string:
		return mkStr(r[lo:hi])
	case *SymStr:
		return m.mkSym(r.B[lo:hi:hi])
	}
	panic("strSlice")
}

func (m *Machine) bytesToStr(e []Value) Value {
	b := make([]sbyte, len(e))
	for i := range e {
		b[i] = valByte(e[i])
	}
	return m.mkSym(b)
}

func (m *Machine) strToSlice(v Value) Value {
	b := strBytes(v)
	e := make([]Value, len(b))
	for i := range b {
		e[i] = m.byteVal(b[i])
	}
	return Value{R: &Slice{E: e}}
}

func sliceElems(v Value) []Value {
	if v.R == nil {
		return nil
	}
	return v.R.(*Slice).E
}

func bval(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func ival(n int64) Value { return Value{N: uint64(n)} }

// val wraps a term.
func (m *Machine) val(t *Term) Value {
	if t.op == OConst {
		return Value{N: t.k}
	}
	return Value{R: t}
}

func (m *Machine) term(v Value, w int) *Term {
	if t, ok := v.R.(*Term); ok {
		return t
	}
	return m.tt.Const(v.N, uint8(w))
}

// boolean value -> Go bool, forking if symbolic
func (m *Machine) truth(v Value) bool {
	if t, ok := v.R.(*Term); ok {
		return m.branch(t)
	}
	return v.N != 0
}

// conc forces an integer value to be concrete (forking over its values).
func (m *Machine) conc(v Value) uint64 {
	if t, ok := v.R.(*Term); ok {
		return m.concretize(t)
	}
	return v.N
}

// ---- types

func (m *Machine) width(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 0
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
			return 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.Float64, types.UntypedFloat:
			return 64
		}
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			switch ft := u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				f[i] = m.zero(ft)
			}
		}
		return Value{R: &Struct{F: f}}
	case *types.Array:
		e := make([]Value, int(u.Len()))
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range e {
				e[i] = m.zero(u.Elem())
			}
		}
		return Value{R: &Array{E: e}}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return Value{R: tp}
	}
	return Value{}
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch r := v.R.(type) {
	case *Struct:
		f := make([]Value, len(r.F))
		for i := range f {
			f[i] = copyVal(r.F[i])
		}
		return Value{R: &Struct{F: f}}
	case *Array:
		f := make([]Value, len(r.E))
		copy(f, r.E)
		if len(f) > 0 {
			switch f[0].R.(type) {
			case *Struct, *Array:
				for i := range f {
					f[i] = copyVal(f[i])
				}
			}
		}
		return Value{R: &Array{E: f}}
	}
	return v
}

// storeTo writes v into the cell p, in place for aggregates.
func (m *Machine) storeTo(p *Value, v Value) {
	switch r := v.R.(type) {
	case *Struct:
		if d, ok := p.R.(*Struct); ok && len(d.F) == len(r.F) {
			if d == r {
				return
			}
			// copy first: r may alias d's content
			c := copyVal(v).R.(*Struct)
			for i := range c.F {
				m.storeTo(&d.F[i], c.F[i])
			}
			return
		}
		m.setCell(p, copyVal(v))
		return
	case *Array:
		if d, ok := p.R.(*Array); ok && len(d.E) == len(r.E) {
			if d == r {
				return
			}
			c := copyVal(v).R.(*Array)
			for i := range c.E {
				m.storeTo(&d.E[i], c.E[i])
			}
			return
		}
		m.setCell(p, copyVal(v))
		return
	}
	m.setCell(p, v)
}

func (m *Machine) setCell(p *Value, v Value) {
	m.undo = append(m.undo, undoEnt{p: p, old: *p})
	*p = v
}
func (m *Machine) logFn(f func()) { m.undo = append(m.undo, undoEnt{fn: f}) }

type undoEnt struct {
	p   *Value
	old Value
	fn  func()
}

func (m *Machine) rollback(n int) {
	for i := len(m.undo) - 1; i >= n; i-- {
		u := &m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undoEnt{}
	}
	m.undo = m.undo[:n]
}

// ---- equality

func (m *Machine) eq(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return bval(a.R == b.R && a.N == b.N)
		}
		w := m.width(t)
		_, s1 := a.R.(*Term)
		_, s2 := b.R.(*Term)
		if u.Info()&types.IsFloat != 0 {
			if !s1 && !s2 {
				return bval(toF(a.N, uint8(w)) == toF(b.N, uint8(w)))
			}
			return m.val(m.tt.F(OFEq, 0, m.term(a, w), m.term(b, w)))
		}
		if u.Info()&types.IsComplex != 0 {
			m.unsupported("complex comparison")
		}
		if !s1 && !s2 {
			return bval(a.N == b.N)
		}
		return m.val(m.tt.Eq(m.term(a, w), m.term(b, w)))
	case *types.Interface:
		if a.R == nil || b.R == nil {
			return bval(a.R == nil && b.R == nil)
		}
		x, y := a.R.(*Iface), b.R.(*Iface)
		if m.typeID(x.T) != m.typeID(y.T) {
			return Value{}
		}
		if !types.Comparable(x.T) {
			m.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return m.eq(x.T, x.V, y.V)
	case *types.Struct:
		x, y := a.R.(*Struct), b.R.(*Struct)
		r := m.tt.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := m.eq(u.Field(i).Type(), x.F[i], y.F[i])
			r = m.tt.And(r, m.term(e, 0))
			if r == m.tt.False {
				return Value{}
			}
		}
		return m.val(r)
	case *types.Array:
		x, y := a.R.(*Array), b.R.(*Array)
		r := m.tt.True
		for i := range x.E {
			e := m.eq(u.Elem(), x.E[i], y.E[i])
			r = m.tt.And(r, m.term(e, 0))
		}
		return m.val(r)
	case *types.Pointer:
		if sp, ok := a.R.(*SymPtr); ok {
			a = Value{R: m.resolveSymPtr(sp)}
		}
		if sp, ok := b.R.(*SymPtr); ok {
			b = Value{R: m.resolveSymPtr(sp)}
		}
		return bval(a.R == b.R)
	case *types.Chan:
		return bval(a.R == b.R)
	case *types.Signature, *types.Slice, *types.Map:
		return bval(a.R == nil && b.R == nil)
	case *types.TypeParam:
	}
	m.unsupported("eq on " + t.String())
	return Value{}
}

func (m *Machine) typeID(t types.Type) int {
	if id, ok := m.typeIDs[t]; ok {
		return id
	}
	if v := m.typeMap.At(t); v != nil {
		id := v.(int)
		m.typeIDs[t] = id
		return id
	}
	id := m.typeMap.Len() + 1
	m.typeMap.Set(t, id)
	m.typeIDs[t] = id
	return id
}

func (m *Machine) resolveSymPtr(sp *SymPtr) *Value {
	i := m.concretize(sp.I)
	return &sp.E[i]
}

// ptr resolves a pointer value to its cell; nil dereference is a target panic.
func (m *Machine) ptr(v Value) *Value {
	switch p := v.R.(type) {
	case *Value:
		return p
	case *SymPtr:
		return m.resolveSymPtr(p)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported(fmt.Sprintf("dereference of %T", v.R))
	return nil
}

func (m *Machine) load(v Value) Value {
	if sp, ok := v.R.(*SymPtr); ok {
		if sp.W >= 0 {
			return m.symRead(sp.E, sp.I, sp.W)
		}
	}
	return *m.ptr(v)
}

// symRead builds an ite chain over scalar elements; idx is known in range.
func (m *Machine) symRead(e []Value, idx *Term, w int) Value {
	// group equal constants to keep chains short
	groups := map[*Term][]int{}
	var order []*Term
	for i := range e {
		t := m.term(e[i], w)
		if groups[t] == nil {
			order = append(order, t)
		}
		groups[t] = append(groups[t], i)
	}
	// the most common value is the default
	sort.SliceStable(order, func(i, j int) bool { return len(groups[order[i]]) > len(groups[order[j]]) })
	res := order[0]
	for _, t := range order[1:] {
		c := m.tt.False
		g := groups[t]
		for i := 0; i < len(g); {
			j := i
			for j+1 < len(g) && g[j+1] == g[j]+1 {
				j++
			}
			if j == i {
				c = m.tt.Or(c, m.tt.Eq(idx, m.tt.Const(uint64(g[i]), idx.w)))
			} else {
				c = m.tt.Or(c, m.tt.And(m.tt.Cmp(OULe, m.tt.Const(uint64(g[i]), idx.w), idx), m.tt.Cmp(OULe, idx, m.tt.Const(uint64(g[j]), idx.w))))
			}
			i = j + 1
		}
		res = m.tt.Ite(c, t, res)
	}
	return m.val(res)
}

var _ = math.Inf
