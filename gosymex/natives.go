package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value

const rtPkg = "github.com/rodb-io/rodb/pkg/zzrt"
const modelsPkg = "github.com/rodb-io/rodb/pkg/zzmodels"

var natives = map[string]nativeFn{}

func reg(name string, f nativeFn) { natives[name] = f }

func nop(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.zeroResult(fn) }

func tup(v ...Value) Value { return Value{R: Tuple(v)} }

func (m *Machine) labelOf(v Value) string {
	s, _ := m.concStr(v)
	return s
}

// logLevel gives the level of a logging method and the function that makes its message.
func logLevel(name string) (level int, how string, ok bool) {
	how = "Sprint"
	switch {
	case strings.HasSuffix(name, "ln"):
		name, how = name[:len(name)-2], "Sprintln"
	case strings.HasSuffix(name, "f"):
		name, how = name[:len(name)-1], "Sprintf"
	}
	l, ok := map[string]int{"Panic": 0, "Fatal": 1, "Error": 2, "Warn": 3, "Warning": 3, "Info": 4, "Print": 4, "Debug": 5, "Trace": 6}[name]
	return l, how, ok
}

func nativePrefix(key string) nativeFn {
	if strings.HasPrefix(key, "(*github.com/sirupsen/logrus.Entry).") || strings.HasPrefix(key, "(*github.com/sirupsen/logrus.Logger).") {
		name := key[strings.LastIndex(key, ".")+1:]
		if l, how, ok := logLevel(name); ok && l > 0 && strings.HasPrefix(key, "(*github.com/sirupsen/logrus.Entry).") {
			return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				if a[0].R == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				if m.recordLogs {
					msg := m.callFn(fr, m.eng.lookupFunc("fmt", how), a[1:], nil)
					m.callFn(fr, m.eng.lookupFunc(rtPkg, "Logged"), []Value{ival(int64(l)), msg}, nil)
				}
				if l == 1 {
					m.callFn(fr, m.eng.lookupFunc(rtPkg, "Exit"), []Value{ival(1)}, nil)
				}
				return Value{}
			}
		}
		if strings.HasPrefix(name, "Fatal") || name == "Exit" {
			return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				m.callFn(fr, m.eng.lookupFunc(rtPkg, "Exit"), []Value{ival(1)}, nil)
				return Value{}
			}
		}
		if strings.HasPrefix(name, "Panic") {
			return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				m.targetPanicText("log panic")
				return Value{}
			}
		}
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			if a[0].R == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			res := fn.Signature.Results()
			if res.Len() == 1 {
				if p, ok := res.At(0).Type().(*types.Pointer); ok {
					if types.Identical(p, fn.Signature.Recv().Type()) {
						return a[0]
					}
					if st, ok := p.Elem().Underlying().(*types.Struct); ok {
						c := new(Value)
						*c = m.zero(st)
						return Value{R: c}
					}
				}
			}
			return m.zeroResult(fn)
		}
	}
	if strings.HasPrefix(key, "github.com/sirupsen/logrus.") {
		name := key[strings.LastIndex(key, ".")+1:]
		switch name {
		case "New", "StandardLogger":
			return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				c := new(Value)
				*c = m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
				return Value{R: c}
			}
		case "NewEntry":
			return nil
		case "Fatal", "Fatalf", "Fatalln", "Exit":
			return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
				m.callFn(fr, m.eng.lookupFunc(rtPkg, "Exit"), []Value{ival(1)}, nil)
				return Value{}
			}
		}
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			res := fn.Signature.Results()
			if res.Len() == 1 {
				if p, ok := res.At(0).Type().(*types.Pointer); ok {
					c := new(Value)
					*c = m.zero(p.Elem())
					return Value{R: c}
				}
			}
			return m.zeroResult(fn)
		}
	}
	return nil
}

func init() {
	r := func(n string, f nativeFn) { reg(rtPkg+"."+n, f) }
	mkVar := func(w uint8, kind string) nativeFn {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			return Value{R: m.newVar(m.labelOf(a[0]), w, kind)}
		}
	}
	r("Byte", mkVar(8, "v"))
	r("Int64", mkVar(64, "v"))
	r("Uint64", mkVar(64, "v"))
	r("Int", mkVar(64, "v"))
	r("Float64bits", mkVar(64, "v"))
	r("Bool", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.newVar(m.labelOf(a[0]), 1, "v")
		return m.val(m.tt.Eq(t, m.tt.Const(1, 1)))
	})
	r("Choice", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.conc(a[1])
		t := m.newVar(m.labelOf(a[0]), 64, "v")
		m.assume(m.tt.Cmp(OULt, t, m.tt.Const(n, 64)))
		return Value{N: m.concretize(t)}
	})
	r("Guess", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.conc(a[0])
		t := m.newVar("guess", 64, "g")
		m.assume(m.tt.Cmp(OULt, t, m.tt.Const(n, 64)))
		return Value{N: m.concretize(t)}
	})
	r("Range", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.newVar(m.labelOf(a[0]), 64, "v")
		m.assume(m.tt.And(m.tt.Cmp(OSLe, m.term(a[1], 64), t), m.tt.Cmp(OSLe, t, m.term(a[2], 64))))
		return Value{R: t}
	})
	r("Concrete", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Value{N: m.conc(a[0])} })
	r("Param", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if v, ok := m.eng.params[m.labelOf(a[0])]; ok {
			return ival(int64(v))
		}
		m.eng.noteParam(m.labelOf(a[0]), int(int64(a[1].N)))
		return a[1]
	})
	r("Assume", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assume(m.term(a[0], 0))
		return Value{}
	})
	r("Assert", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assert(m.term(a[0], 0), m.labelOf(a[1]))
		return Value{}
	})
	r("Fail", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assert(m.tt.False, m.render(a[0]))
		return Value{}
	})
	r("AtEnd", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Value{} })
	r("Reach", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.reached[m.labelOf(a[0])] = true
		return Value{}
	})
	r("Observe", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.observed = append(m.observed, Observation{Label: m.labelOf(a[0]), V: a[1], W: 64})
		return Value{}
	})
	r("ObserveStr", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.observed = append(m.observed, Observation{Label: m.labelOf(a[0]), V: a[1], Str: true})
		return Value{}
	})
	r("Interleave", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.interleave = int(m.conc(a[0]))
		m.maxPreempts = int(m.conc(a[1]))
		return Value{}
	})
	r("RecordLogs", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.recordLogs = m.truth(a[0])
		return m.callFn(fr, m.eng.lookupFunc(rtPkg, "recordLogs"), a, nil)
	})
	r("Races", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.races = nil
		if m.truth(a[0]) {
			m.races = &raceState{locks: map[any][]uint32{}, cells: map[any]*cellAccess{}}
		}
		return Value{}
	})
	r("MapOrder", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.mapOrder = m.truth(a[0])
		return Value{}
	})
	r("MustTerminate", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.hangLimit = int64(m.conc(a[0]))
		m.maxSteps = m.steps + m.hangLimit
		return Value{}
	})
	r("Symbolic", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return bval(true) })
	r("Path", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.strConcat(mkStr("/vfs/"), a[0])
	})
	r("OpenFiles", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.callFn(fr, m.eng.lookupFunc(modelsPkg, "OpenFiles"), nil, nil)
	})
	r("AssumeIn", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := m.term(a[0], 8)
		m.assume(m.byteInSet(c, m.labelOf(a[1])))
		return Value{}
	})
	r("And", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.tt.True
		for _, x := range sliceElems(a[0]) {
			t = m.tt.And(t, m.term(x, 0))
		}
		return m.val(t)
	})
	r("Or", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.tt.False
		for _, x := range sliceElems(a[0]) {
			t = m.tt.Or(t, m.term(x, 0))
		}
		return m.val(t)
	})
	r("IteInt", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.val(m.tt.Ite(m.term(a[0], 0), m.term(a[1], 64), m.term(a[2], 64)))
	})
	r("Contains", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, sub := strBytes(a[0]), strBytes(a[1])
		t := m.tt.False
		for i := 0; i+len(sub) <= len(s); i++ {
			e := m.tt.True
			for j := range sub {
				e = m.tt.And(e, m.tt.Eq(m.bt(s[i+j]), m.bt(sub[j])))
			}
			t = m.tt.Or(t, e)
		}
		return m.val(t)
	})
	r("LowerASCII", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := strBytes(a[0])
		o := make([]sbyte, len(s))
		for i := range s {
			t := m.bt(s[i])
			up := m.tt.And(m.tt.Cmp(OULe, m.tt.Const('A', 8), t), m.tt.Cmp(OULe, t, m.tt.Const('Z', 8)))
			r := m.tt.Ite(up, m.tt.BV(OAdd, t, m.tt.Const(32, 8)), t)
			o[i] = valByte(m.val(r))
		}
		return m.mkSym(o)
	})

	// ---- runtime, sync
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched",
		"(*sync.Cond).Broadcast", "(*sync.Cond).Signal",
		"(*strings.Builder).copyCheck", "os/signal.Notify", "os/signal.Stop", "runtime/debug.FreeOSMemory",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "runtime.AddCleanup", "time.Sleep",
		"internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value",
	} {
		reg(n, nop)
	}
	reg("runtime.NumCPU", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return ival(4) })
	reg("runtime.GOMAXPROCS", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return ival(4) })
	yield := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { m.yieldNow(); return Value{} }
	reg("runtime.Gosched", yield)
	reg("time.Sleep", yield)

	// Mutex: first cell holds the state (0 free, 1 locked); RWMutex: N = readers, R unused; state -1 writer
	cell := func(m *Machine, v Value) *Value {
		p := m.ptr(v)
		for {
			st, ok := p.R.(*Struct)
			if !ok {
				if ar, ok := p.R.(*Array); ok && len(ar.E) > 0 {
					p = &ar.E[0]
					continue
				}
				return p
			}
			if len(st.F) == 0 {
				return p
			}
			p = &st.F[0]
		}
	}
	const writer = uint64(1) << 40
	lock := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.syncPoint()
		m.blockUntil(func() bool { return c.N == 0 })
		m.setCell(c, Value{N: writer})
		return Value{}
	}
	unlock := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		if c.N != writer {
			m.violation("panic", "fatal error: sync: unlock of unlocked mutex", m.model)
		}
		m.setCell(c, Value{})
		m.syncPoint()
		return Value{}
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	trylock := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.syncPoint()
		if c.N != 0 {
			return bval(false)
		}
		m.setCell(c, Value{N: writer})
		return bval(true)
	}
	reg("(*sync.Mutex).TryLock", trylock)
	reg("(*sync.RWMutex).TryLock", trylock)
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.syncPoint()
		m.blockUntil(func() bool { return c.N < writer })
		m.setCell(c, Value{N: c.N + 1})
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		if c.N == 0 || c.N >= writer {
			m.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex", m.model)
		}
		m.setCell(c, Value{N: c.N - 1})
		m.syncPoint()
		return Value{}
	})
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.setCell(c, Value{N: c.N + a[1].N})
		if int64(c.N) < 0 {
			m.targetPanicText("sync: negative WaitGroup counter")
		}
		m.syncPoint()
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.setCell(c, Value{N: c.N - 1})
		if int64(c.N) < 0 {
			m.targetPanicText("sync: negative WaitGroup counter")
		}
		m.syncPoint()
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.blockUntil(func() bool { return c.N == 0 })
		return Value{}
	})
	reg("(*sync.WaitGroup).Go", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.setCell(c, Value{N: c.N + 1})
		f := a[1]
		m.spawn(func() {
			m.callValue(nil, f, nil)
			m.hbRelease(a[0].R)
			m.setCell(c, Value{N: c.N - 1})
		})
		return Value{}
	})
	reg("(*sync.Once).Do", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := cell(m, a[0])
		m.syncPoint()
		if c.N == 1 {
			return Value{}
		}
		if c.N == 2 {
			m.blockUntil(func() bool { return c.N == 1 })
			return Value{}
		}
		m.setCell(c, Value{N: 2})
		m.callValue(fr, a[1], nil)
		m.setCell(c, Value{N: 1})
		return Value{}
	})
	// Pool: never keeps anything
	reg("(*sync.Pool).Get", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := m.ptr(a[0]).R.(*Struct)
		nf := st.F[len(st.F)-1] // New is the last field
		if nf.R == nil {
			return Value{}
		}
		return m.callValue(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", nop)
	// sync.Map via an engine map kept in the first cell
	smap := func(m *Machine, v Value) *Map {
		c := &m.ptr(v).R.(*Struct).F[1]
		if mp, ok := c.R.(*Map); ok {
			return mp
		}
		mp := m.newMap(types.NewInterfaceType(nil, nil))
		m.setCell(c, Value{R: mp})
		return mp
	}
	reg("(*sync.Map).Load", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		e := m.mapFind(smap(m, a[0]), a[1])
		if e == nil {
			return tup(Value{}, bval(false))
		}
		return tup(e.V, bval(true))
	})
	reg("(*sync.Map).Store", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).LoadOrStore", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		mp := smap(m, a[0])
		e := m.mapFind(mp, a[1])
		if e != nil {
			return tup(e.V, bval(true))
		}
		m.mapSet(mp, a[1], a[2])
		return tup(a[2], bval(false))
	})
	reg("(*sync.Map).Delete", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		m.mapDelete(smap(m, a[0]), a[1])
		return Value{}
	})

	// ---- atomics
	for _, k := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := k.w
		add := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			c := cell2(m, a[0])
			v := m.val(m.tt.BV(OAdd, m.term(*c, w), m.term(a[1], w)))
			m.setCell(c, v)
			return v
		}
		load := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { m.syncPoint(); return *cell2(m, a[0]) }
		store := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			m.setCell(cell2(m, a[0]), a[1])
			return Value{}
		}
		swap := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			c := cell2(m, a[0])
			o := *c
			m.setCell(c, a[1])
			return o
		}
		cas := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			c := cell2(m, a[0])
			if m.truth(m.val(m.tt.Eq(m.term(*c, w), m.term(a[1], w)))) {
				m.setCell(c, a[2])
				return bval(true)
			}
			return bval(false)
		}
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(p+"Add"+k.n, add)
			reg(p+"Load"+k.n, load)
			reg(p+"Store"+k.n, store)
			reg(p+"Swap"+k.n, swap)
			reg(p+"CompareAndSwap"+k.n, cas)
		}
		reg("(*sync/atomic."+k.n+").Add", add)
		reg("(*sync/atomic."+k.n+").Load", load)
		reg("(*sync/atomic."+k.n+").Store", store)
		reg("(*sync/atomic."+k.n+").Swap", swap)
		reg("(*sync/atomic."+k.n+").CompareAndSwap", cas)
	}
	reg("(*sync/atomic.Bool).Load", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { m.syncPoint(); return *cell2(m, a[0]) })
	reg("(*sync/atomic.Bool).Store", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		m.setCell(cell2(m, a[0]), a[1])
		return Value{}
	})
	reg("(*sync/atomic.Bool).Swap", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		c := cell2(m, a[0])
		o := *c
		m.setCell(c, a[1])
		return o
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		c := cell2(m, a[0])
		if m.truth(m.val(m.tt.Eq(m.term(*c, 0), m.term(a[1], 0)))) {
			m.setCell(c, a[2])
			return bval(true)
		}
		return bval(false)
	})
	for _, ty := range []string{"(*sync/atomic.Value)", "(*sync/atomic.Pointer)", "(*sync/atomic.Pointer[T])"} {
		reg(ty+".Load", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			return *cellLast(m, a[0])
		})
		reg(ty+".Store", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.syncPoint()
			m.setCell(cellLast(m, a[0]), a[1])
			return Value{}
		})
		reg(ty+".Swap", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			c := cellLast(m, a[0])
			o := *c
			m.setCell(c, a[1])
			return o
		})
		reg(ty+".CompareAndSwap", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			c := cellLast(m, a[0])
			if c.R == a[1].R {
				m.setCell(c, a[2])
				return bval(true)
			}
			return bval(false)
		})
	}

	// ---- math
	id := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)
	reg("math.IsNaN", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.val(m.tt.F(OFNaN, 0, m.term(a[0], 64), nil))
	})
	reg("math.IsInf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t := m.term(a[0], 64)
		inf := m.tt.F(OFInf, 0, t, nil)
		s := m.conc(a[1])
		neg := m.tt.Eq(m.tt.Extract(t, 63, 1), m.tt.Const(1, 1))
		if int64(s) > 0 {
			inf = m.tt.And(inf, m.tt.Not(neg))
		} else if int64(s) < 0 {
			inf = m.tt.And(inf, neg)
		}
		return m.val(inf)
	})
	f1 := func(f func(float64) float64) nativeFn {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			if a[0].R != nil {
				m.unsupported("symbolic " + fn.String())
			}
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	reg("math.Floor", f1(math.Floor))
	reg("math.Ceil", f1(math.Ceil))
	reg("math.Trunc", f1(math.Trunc))
	reg("math.Sqrt", f1(math.Sqrt))
	reg("math.Abs", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.val(m.tt.BV(OBAnd, m.term(a[0], 64), m.tt.Const(^(uint64(1)<<63), 64)))
	})

	// ---- bytealg
	idxByte := func(m *Machine, b []sbyte, c Value) Value {
		tc := m.term(c, 8)
		for i := range b {
			if m.branch(m.tt.Eq(m.bt(b[i]), tc)) {
				return ival(int64(i))
			}
		}
		return ival(-1)
	}
	lastIdxByte := func(m *Machine, b []sbyte, c Value) Value {
		tc := m.term(c, 8)
		for i := len(b) - 1; i >= 0; i-- {
			if m.branch(m.tt.Eq(m.bt(b[i]), tc)) {
				return ival(int64(i))
			}
		}
		return ival(-1)
	}
	sb := func(v Value) []sbyte {
		switch v.R.(type) {
		case nil, string, *SymStr:
			return strBytes(v)
		}
		e := sliceElems(v)
		b := make([]sbyte, len(e))
		for i := range e {
			b[i] = valByte(e[i])
		}
		return b
	}
	concS := func(m *Machine, v Value) (string, bool) {
		switch r := v.R.(type) {
		case nil:
			return "", true
		case string:
			return r, true
		}
		return "", false
	}
	ib := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := concS(m, a[0]); ok && a[1].R == nil {
			return ival(int64(strings.IndexByte(s, byte(a[1].N))))
		}
		if sl, ok := a[0].R.(*Slice); ok && a[1].R == nil {
			// fast scan while concrete
			for i := range sl.E {
				if sl.E[i].R == nil {
					if sl.E[i].N == a[1].N {
						return ival(int64(i))
					}
				} else if m.branch(m.tt.Eq(sl.E[i].R.(*Term), m.tt.Const(a[1].N, 8))) {
					return ival(int64(i))
				}
			}
			return ival(-1)
		}
		return idxByte(m, sb(a[0]), a[1])
	}
	reg("internal/bytealg.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ib)
	reg("strings.IndexByte", ib)
	reg("bytes.IndexByte", ib)
	lib := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return lastIdxByte(m, sb(a[0]), a[1]) }
	reg("internal/bytealg.LastIndexByte", lib)
	reg("internal/bytealg.LastIndexByteString", lib)
	beq := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.strEq(m.mkSym(sb(a[0])), m.mkSym(sb(a[1])))
	}
	reg("internal/bytealg.Equal", beq)
	reg("bytes.Equal", beq)
	bcmp := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := m.mkSym(sb(a[0])), m.mkSym(sb(a[1]))
		lt, e := m.strLess(x, y, false), m.strEq(x, y)
		return m.val(m.tt.Ite(m.term(lt, 0), m.tt.Const(^uint64(0), 64), m.tt.Ite(m.term(e, 0), m.tt.Const(0, 64), m.tt.Const(1, 64))))
	}
	reg("internal/bytealg.Compare", bcmp)
	reg("internal/bytealg.CompareString", bcmp)
	reg("bytes.Compare", bcmp)
	reg("strings.Compare", bcmp)
	cnt := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		tc := m.term(a[1], 8)
		n := uint64(0)
		t := m.tt.Const(0, 64)
		for _, b := range sb(a[0]) {
			e := m.tt.Eq(m.bt(b), tc)
			if e == m.tt.True {
				n++
			} else if e != m.tt.False {
				t = m.tt.BV(OAdd, t, m.tt.Ite(e, m.tt.Const(1, 64), m.tt.Const(0, 64)))
			}
		}
		return m.val(m.tt.BV(OAdd, t, m.tt.Const(n, 64)))
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	index := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, sub := sb(a[0]), sb(a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			e := m.tt.True
			for j := range sub {
				e = m.tt.And(e, m.tt.Eq(m.bt(s[i+j]), m.bt(sub[j])))
				if e == m.tt.False {
					break
				}
			}
			if m.branch(e) {
				return ival(int64(i))
			}
		}
		return ival(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, index)
	}
	contains := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return natives[rtPkg+".Contains"](m, fr, fn, []Value{m.mkSym(sb(a[0])), m.mkSym(sb(a[1]))})
	}
	reg("strings.Contains", contains)
	reg("bytes.Contains", contains)
	hasPrefix := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, p := m.mkSym(sb(a[0])), m.mkSym(sb(a[1]))
		if strLen(p) > strLen(s) {
			return Value{}
		}
		return m.strEq(m.strSlice(s, 0, strLen(p)), p)
	}
	reg("strings.HasPrefix", hasPrefix)
	reg("bytes.HasPrefix", hasPrefix)
	hasSuffix := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s, p := m.mkSym(sb(a[0])), m.mkSym(sb(a[1]))
		if strLen(p) > strLen(s) {
			return Value{}
		}
		return m.strEq(m.strSlice(s, strLen(s)-strLen(p), strLen(s)), p)
	}
	reg("strings.HasSuffix", hasSuffix)
	reg("bytes.HasSuffix", hasSuffix)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.sizeArg(a[0], types.Typ[types.Int], "makeslice: len out of range")
		return Value{R: &Slice{E: make([]Value, n)}}
	})
	reg("strings.ToLower", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := m.concStr(a[0]); ok {
			return mkStr(strings.ToLower(s))
		}
		return m.caseMap(fr, fn, a, 'A', 'Z', 32)
	})
	reg("strings.ToUpper", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := m.concStr(a[0]); ok {
			return mkStr(strings.ToUpper(s))
		}
		return m.caseMap(fr, fn, a, 'a', 'z', ^uint64(31))
	})
	reg("(*strings.Builder).String", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := m.ptr(a[0]).R.(*Struct)
		return m.bytesToStr(sliceElems(st.F[1]))
	})
	reg("strings.Clone", id)
	reg("internal/stringslite.Clone", id)
	reg("strconv.Quote", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(strconv.Quote(m.render(a[0])))
	})
	reg("internal/strconv.Quote", natives["strconv.Quote"])

	reg("(reflect.Kind).String", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(reflect.Kind(m.conc(a[0])).String())
	})

	// ---- time
	now := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		v := m.zero(fn.Signature.Results().At(0).Type())
		v.R.(*Struct).F[1] = Value{N: uint64(62135596800 + 1700000000)}
		return v
	}
	reg("time.Now", now)
	reg("time.runtimeNano", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Value{} })

	// ---- reflect & friends (see reflect.go), fmt (see format.go)
	reg("os.Exit", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.callFn(fr, m.eng.lookupFunc(rtPkg, "Exit"), []Value{a[0]}, nil)
	})
	reg(modelsPkg+".IsComparable", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if a[0].R == nil {
			return bval(true)
		}
		return bval(types.Comparable(a[0].R.(*Iface).T))
	})
	reg(modelsPkg+".Unsupported", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.unsupported("model: " + m.render(a[0]))
		return Value{}
	})
	reg(rtPkg+".Unsupported", natives[modelsPkg+".Unsupported"])
	reg("math/rand/v2.IntN", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.conc(a[0])
		if n <= 1 {
			return ival(0)
		}
		return ival(int64(m.schedChoice(int(n))))
	})
	reg(modelsPkg+".SyncPoint", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.syncPoint()
		return Value{}
	})
	reg(modelsPkg+".DeepCopy", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.deepCopy(a[0], map[any]any{})
	})
}

// cell2: the single scalar inside an atomic wrapper (skipping noCopy/align markers).
func cell2(m *Machine, v Value) *Value { return cellLast(m, v) }

func cellLast(m *Machine, v Value) *Value {
	p := m.ptr(v)
	for {
		st, ok := p.R.(*Struct)
		if !ok || len(st.F) == 0 {
			return p
		}
		p = &st.F[len(st.F)-1]
	}
}

// byteInSet builds one membership constraint from ranges.
func (m *Machine) byteInSet(c *Term, set string) *Term {
	var in [256]bool
	for i := 0; i < len(set); i++ {
		in[set[i]] = true
	}
	t := m.tt.False
	for i := 0; i < 256; i++ {
		if !in[i] {
			continue
		}
		j := i
		for j+1 < 256 && in[j+1] {
			j++
		}
		if i == j {
			t = m.tt.Or(t, m.tt.Eq(c, m.tt.Const(uint64(i), 8)))
		} else {
			t = m.tt.Or(t, m.tt.And(m.tt.Cmp(OULe, m.tt.Const(uint64(i), 8), c), m.tt.Cmp(OULe, c, m.tt.Const(uint64(j), 8))))
		}
		i = j
	}
	return t
}

// caseMap: ASCII-only texts are mapped bytewise in one go; otherwise the real code runs.
func (m *Machine) caseMap(fr *Frame, fn *ssa.Function, a []Value, lo, hi byte, delta uint64) Value {
	s := strBytes(a[0])
	ascii := m.tt.True
	for i := range s {
		ascii = m.tt.And(ascii, m.tt.Cmp(OULt, m.bt(s[i]), m.tt.Const(0x80, 8)))
	}
	if !m.branch(ascii) {
		return m.callF(fr, m.bodyOf(fn), a, nil)
	}
	o := make([]sbyte, len(s))
	for i := range s {
		t := m.bt(s[i])
		in := m.tt.And(m.tt.Cmp(OULe, m.tt.Const(uint64(lo), 8), t), m.tt.Cmp(OULe, t, m.tt.Const(uint64(hi), 8)))
		o[i] = valByte(m.val(m.tt.Ite(in, m.tt.BV(OAdd, t, m.tt.Const(delta, 8)), t)))
	}
	return m.mkSym(o)
}

// bodyOf compiles the real body of a function that also has a native.
func (m *Machine) bodyOf(fn *ssa.Function) *Func {
	if f, ok := m.bodies[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	m.compileBody(fn, f)
	m.bodies[fn] = f
	return f
}

// deepCopy snapshots a value reachable through interfaces, maps, slices, pointers.
func (m *Machine) deepCopy(v Value, seen map[any]any) Value {
	switch r := v.R.(type) {
	case *Iface:
		return Value{R: &Iface{T: r.T, V: m.deepCopy(r.V, seen)}}
	case *Map:
		if c, ok := seen[r]; ok {
			return Value{R: c}
		}
		n := m.newMap(r.kt)
		seen[r] = n
		for _, e := range r.ents {
			if e.dead {
				continue
			}
			m.mapSet(n, e.K, m.deepCopy(e.V, seen))
		}
		return Value{R: n}
	case *Slice:
		e := make([]Value, len(r.E))
		for i := range e {
			e[i] = m.deepCopy(r.E[i], seen)
		}
		return Value{R: &Slice{E: e}}
	case *Struct:
		f := make([]Value, len(r.F))
		for i := range f {
			f[i] = m.deepCopy(r.F[i], seen)
		}
		return Value{R: &Struct{F: f}}
	case *Array:
		f := make([]Value, len(r.E))
		for i := range f {
			f[i] = m.deepCopy(r.E[i], seen)
		}
		return Value{R: &Array{E: f}}
	}
	return v
}

var _ = fmt.Sprint
