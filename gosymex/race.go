package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// raceState follows the happens-before order of a path (vector clocks) and finds pairs of accesses to
// the same memory, at least one a write, that nothing orders: whatever the schedule of the path, another
// one runs them at the same time.
type raceState struct {
	vc    [][]uint32 // clock of each thread
	locks map[any][]uint32
	cells map[any]*cellAccess
}

type epoch struct {
	tid   int
	clk   uint32
	where string
}

type cellAccess struct {
	w     epoch
	reads []epoch
}

type readers struct{ k any } // the readers of a RWMutex

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (r *raceState) clock(tid int) []uint32 {
	for len(r.vc) <= tid {
		r.vc = append(r.vc, nil)
	}
	v := r.vc[tid]
	for len(v) <= tid {
		v = append(v, 0)
	}
	if v[tid] == 0 {
		v[tid] = 1
	}
	r.vc[tid] = v
	return v
}

func (m *Machine) hbSpawn(child int) {
	if m.races == nil {
		return
	}
	p := m.races.clock(m.cur.id)
	m.races.clock(child)
	m.races.vc[child] = joinVC(m.races.vc[child], p)
	p[m.cur.id]++
}

func (m *Machine) hbRelease(k any) {
	if m.races == nil || m.cur == nil || k == nil {
		return
	}
	p := m.races.clock(m.cur.id)
	m.races.locks[k] = joinVC(m.races.locks[k], p)
	p[m.cur.id]++
}

func (m *Machine) hbAcquire(k any) {
	if m.races == nil || m.cur == nil || k == nil {
		return
	}
	m.races.clock(m.cur.id)
	m.races.vc[m.cur.id] = joinVC(m.races.vc[m.cur.id], m.races.locks[k])
}

// access records a read or write of what p points to.
func (m *Machine) access(p any, write bool, where string) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			return
		}
		switch a := x.R.(type) {
		case *Struct:
			for i := range a.F {
				m.access(&a.F[i], write, where)
			}
			return
		case *Array:
			if len(a.E) <= 64 {
				for i := range a.E {
					m.access(&a.E[i], write, where)
				}
			}
			return
		}
	case *Map:
		if x == nil {
			return
		}
	case *SymPtr:
		for i := range x.E {
			m.access(&x.E[i], write, where)
		}
		return
	default:
		return
	}
	r := m.races
	me := m.cur.id
	vc := r.clock(me)
	c := r.cells[p]
	if c == nil {
		c = &cellAccess{}
		r.cells[p] = c
	}
	before := func(e epoch) bool {
		return e.clk == 0 || e.tid == me || e.tid < len(vc) && e.clk <= vc[e.tid]
	}
	if !before(c.w) {
		m.raceFound(c.w.where, where)
	}
	if !write {
		for i := range c.reads {
			if c.reads[i].tid == me {
				c.reads[i].clk = vc[me]
				return
			}
		}
		c.reads = append(c.reads, epoch{me, vc[me], where})
		return
	}
	for _, e := range c.reads {
		if !before(e) {
			m.raceFound(e.where, where)
		}
	}
	c.w = epoch{me, vc[me], where}
	c.reads = c.reads[:0]
}

func (m *Machine) raceFound(a, b string) {
	m.violation("race", fmt.Sprintf("two goroutines use the same memory at once: %s and %s", a, b), m.model)
}

// raceTracked tells whether the memory accesses of a function are followed.
func raceTracked(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
	}
	if pk == nil {
		return false
	}
	p := pk.Pkg.Path()
	if strings.Contains(p, "/zz") {
		return false
	}
	for _, x := range []string{"runtime", "internal", "sync", "reflect", "os", "syscall", "net", "time", "log", "unsafe", "database", "context"} {
		if p == x || strings.HasPrefix(p, x+"/") {
			return false
		}
	}
	return true
}

// orderedBy adds the happens-before edges of the synchronization operations.
func orderedBy() {
	wrap := func(k string, before, after func(m *Machine, p any)) {
		f, ok := natives[k]
		if !ok {
			panic("no such operation: " + k)
		}
		natives[k] = func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			if m.races == nil {
				return f(m, fr, fn, a)
			}
			p := a[0].R
			if before != nil {
				before(m, p)
			}
			v := f(m, fr, fn, a)
			if after != nil {
				after(m, p)
			}
			return v
		}
	}
	acq := func(m *Machine, p any) { m.hbAcquire(p) }
	rel := func(m *Machine, p any) { m.hbRelease(p) }
	both := func(m *Machine, p any) { m.hbAcquire(p); m.hbAcquire(readers{p}) }
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		wrap(t+".Lock", nil, both)
		wrap(t+".TryLock", nil, both)
		wrap(t+".Unlock", rel, nil)
	}
	wrap("(*sync.RWMutex).RLock", nil, acq)
	wrap("(*sync.RWMutex).RUnlock", func(m *Machine, p any) { m.hbRelease(readers{p}) }, nil)
	wrap("(*sync.WaitGroup).Add", rel, nil)
	wrap("(*sync.WaitGroup).Done", rel, nil)
	wrap("(*sync.WaitGroup).Wait", nil, acq)
	wrap("(*sync.Once).Do", nil, func(m *Machine, p any) { m.hbAcquire(p); m.hbRelease(p) })
	for k := range natives {
		if strings.HasPrefix(k, "(*sync/atomic.") || strings.HasPrefix(k, "sync/atomic.") || strings.HasPrefix(k, "internal/runtime/atomic.") || strings.HasPrefix(k, "(*sync.Map).") {
			wrap(k, rel, acq)
		}
	}
}
