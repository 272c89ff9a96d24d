package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of exploring one harness.
type Result struct {
	Harness    string          `json:"harness"`
	Params     map[string]int  `json:"params"`
	Paths      int             `json:"paths"`
	Done       int             `json:"paths_completed"`
	Infeasible int             `json:"paths_infeasible"`
	Aborted    map[string]int  `json:"paths_given_up"`
	AbortMsgs  map[string]int  `json:"given_up_reasons,omitempty"`
	Asserts    int             `json:"assertions_evaluated"`
	SymAsserts int             `json:"assertions_decided_by_solver"`
	Branches   int             `json:"symbolic_decisions"`
	Steps      int64           `json:"ssa_steps"`
	Queries    int             `json:"solver_queries"`
	SolverS    float64         `json:"solver_s"`
	SlowestMs  int64           `json:"slowest_query_ms"`
	Unknown    int             `json:"solver_unknown"`
	Complete   bool            `json:"complete"`
	WallS      float64         `json:"wall_s"`
	Funcs      map[string]bool `json:"-"`
	Reached    map[string]bool `json:"-"`
	Violations []*Violation    `json:"-"`
	Samples    []*PathSample   `json:"-"`
}

// PathSample is a completed path with one concrete assignment, for validation against the implementation.
type PathSample struct {
	Model    Model
	Vars     []VarInfo
	Observed []string
}

func newMachine(e *Engine) *Machine {
	m := &Machine{
		eng:          e,
		tt:           NewTermTab(),
		typeIDs:      map[types.Type]int{},
		globals:      map[*ssa.Global]*Value{},
		funcs:        map[*ssa.Function]*Func{},
		bodies:       map[*ssa.Function]*Func{},
		methods:      map[methodKey]*ssa.Function{},
		implCache:    map[implKey]bool{},
		reflectTypes: map[int]*rtype{},
		natState:     map[string]any{},
		maxSteps:     e.maxSteps,
	}
	m.sol = NewSolver(e.solverMs)
	return m
}

// baseline runs the package initialisers.
func (m *Machine) baseline() (err error) {
	m.concrete = true
	m.maxSteps = 1 << 60
	m.resetPath(WorkItem{})
	main := &Thread{id: 0, wake: make(chan struct{}, 1), started: true}
	m.threads = []*Thread{main}
	m.cur = main
	for _, sp := range m.eng.initOrder {
		if !m.eng.initAllowed(sp.Pkg.Path()) {
			continue
		}
		fn := sp.Func("init")
		var out *pathAbort
		func() {
			defer func() {
				if r := recover(); r != nil {
					o := m.classify(r)
					out = &o
				}
			}()
			m.callFn(nil, fn, nil, nil)
		}()
		if out != nil {
			if os.Getenv("GOSYMEX_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init of", sp.Pkg.Path(), ":", out.kind, out.msg)
			}
			main.fr = nil
			main.depth = 0
			if strings.HasPrefix(sp.Pkg.Path(), repoMod) {
				return fmt.Errorf("init of %s: %s", sp.Pkg.Path(), out.msg)
			}
			m.violated = nil
		}
	}
	m.concrete = false
	m.maxSteps = m.eng.maxSteps
	m.undo = m.undo[:0]
	return nil
}

type pool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	items []WorkItem
	idle  int
	n     int
	done  bool
}

func (p *pool) get() (WorkItem, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.done {
			return WorkItem{}, false
		}
		if len(p.items) > 0 {
			it := p.items[len(p.items)-1]
			p.items = p.items[:len(p.items)-1]
			return it, true
		}
		p.idle++
		if p.idle == p.n {
			p.done = true
			p.cond.Broadcast()
			return WorkItem{}, false
		}
		p.cond.Wait()
		p.idle--
	}
}

func (p *pool) put(it []WorkItem) {
	p.mu.Lock()
	p.items = append(p.items, it...)
	p.mu.Unlock()
	p.cond.Broadcast()
}

func (p *pool) hungry() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.idle > 0 && len(p.items) < p.n
}

func (p *pool) halt() {
	p.mu.Lock()
	p.done = true
	p.mu.Unlock()
	p.cond.Broadcast()
}

type worker struct{ m *Machine }

// Explorer keeps one initialised machine per worker across harnesses.
type Explorer struct {
	prog    *Program
	workers []*Machine
}

func (x *Explorer) explore(eng *Engine, fn *ssa.Function, nw int, onPath func(*Machine, pathAbort)) *Result {
	t0 := time.Now()
	res := &Result{Harness: fn.Pkg.Pkg.Name() + "." + fn.Name(), Aborted: map[string]int{}, AbortMsgs: map[string]int{}, Funcs: map[string]bool{}, Reached: map[string]bool{}, Params: map[string]int{}}
	var mu sync.Mutex
	pl := &pool{n: nw}
	pl.cond = sync.NewCond(&pl.mu)
	pl.items = []WorkItem{{}}
	incomplete := false
	violKeys := map[string]int{}
	nNew := 0
	var wg sync.WaitGroup
	for len(x.workers) < nw {
		x.workers = append(x.workers, nil)
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := x.workers[w]
			if m == nil {
				m = newMachine(eng)
				if err := m.baseline(); err != nil {
					mu.Lock()
					res.AbortMsgs["baseline: "+err.Error()]++
					res.Aborted["unsupported"]++
					incomplete = true
					mu.Unlock()
					pl.halt()
					return
				}
				x.workers[w] = m
			}
			m.eng = eng
			m.maxSteps = eng.maxSteps
			m.sol.timeout = eng.solverMs
			m.sol.restart()
			m.cover = map[*Func]bool{}
			q0, t0, u0 := m.sol.Queries, m.sol.Time, m.sol.Unknown
			m.sol.Slowest = 0
			var local []WorkItem
			for {
				var it WorkItem
				if n := len(local); n > 0 {
					it = local[n-1]
					local = local[:n-1]
				} else {
					var ok bool
					if it, ok = pl.get(); !ok {
						break
					}
				}
				if eng.expired() {
					mu.Lock()
					incomplete = true
					mu.Unlock()
					pl.halt()
					break
				}
				out := m.runPath(fn, it)
				mu.Lock()
				res.Paths++
				res.Asserts += m.asserts
				res.SymAsserts += m.symAsserts
				res.Branches += len(m.decs) - len(it.prefix)
				res.Steps += m.steps
				if m.unknowns > 0 {
					incomplete = true
				}
				for k := range m.reached {
					res.Reached[k] = true
				}
				stop := false
				switch out.kind {
				case "done":
					res.Done++
					// reservoir: keep the first few and then ever rarer ones
					if k := res.Done; len(res.Samples) < 24 || k&(k-1) == 0 {
						res.Samples = append(res.Samples, m.sample())
					}
				case "infeasible":
					res.Infeasible++
				case "violation":
					if m.violated != nil {
						key := m.violated.Kind + m.violated.Msg
						if violKeys[key]++; violKeys[key] <= 3 {
							res.Violations = append(res.Violations, m.violated)
						}
						if eng.isKnown == nil || !eng.isKnown(m.violated) {
							nNew++
						}
						incomplete = true
						if nNew >= 12 || len(res.Violations) >= eng.maxViol {
							stop = true
							incomplete = true
						}
					}
				case "time":
					incomplete = true
					stop = true
				default:
					res.Aborted[out.kind]++
					msg := out.kind + ": " + out.msg
					if len(res.AbortMsgs) < 40 || res.AbortMsgs[msg] > 0 {
						res.AbortMsgs[msg]++
					}
					incomplete = true
				}
				mu.Unlock()
				if onPath != nil {
					onPath(m, out)
				}
				if stop {
					eng.stop.Store(true)
					pl.halt()
					break
				}
				local = append(local, m.newWork...)
				m.newWork = nil
				if len(local) > 1 && pl.hungry() {
					k := len(local) / 2
					pl.put(local[:k])
					local = append([]WorkItem{}, local[k:]...)
				}
			}
			mu.Lock()
			res.Queries += m.sol.Queries - q0
			res.SolverS += (m.sol.Time - t0).Seconds()
			res.Unknown += m.sol.Unknown - u0
			if s := m.sol.Slowest.Milliseconds(); s > res.SlowestMs {
				res.SlowestMs = s
			}
			for f := range m.cover {
				if f.target {
					res.Funcs[f.name] = true
				}
			}
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	res.Complete = !incomplete
	for k, v := range eng.parSeen {
		res.Params[k] = v
	}
	for k, v := range eng.params {
		res.Params[k] = v
	}
	res.WallS = time.Since(t0).Seconds()
	return res
}

func (x *Explorer) close() {
	for _, m := range x.workers {
		if m != nil {
			m.sol.Close()
		}
	}
}

func (m *Machine) sample() *PathSample {
	s := &PathSample{Model: Model{}, Vars: append([]VarInfo{}, m.varInfo...)}
	for k, v := range m.model {
		s.Model[k] = v
	}
	for _, o := range m.observed {
		if o.Str {
			s.Observed = append(s.Observed, fmt.Sprintf("%s=%q", o.Label, m.render(o.V)))
		} else {
			v := o.V.N
			if t, ok := o.V.R.(*Term); ok {
				v = m.tt.Eval(t, m.model)
			}
			s.Observed = append(s.Observed, fmt.Sprintf("%s=%d", o.Label, int64(v)))
		}
	}
	return s
}

// values lists the inputs in creation order (schedule and iteration-order choices left out).
func values(model Model, vars []VarInfo) []uint64 {
	var r []uint64
	for _, v := range vars {
		if v.Kind == "v" {
			r = append(r, model[v.Name])
		}
	}
	return r
}

func hasKind(vars []VarInfo, model Model, kind string) bool {
	for _, v := range vars {
		if v.Kind == kind && model[v.Name] != 0 {
			return true
		}
	}
	return false
}
