package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var solverEpochMu sync.Mutex

type Decision struct {
	Val   uint64
	Taken bool
}

// path outcomes raised as Go panics inside the engine
type pathAbort struct {
	kind string // "infeasible","unsupported","budget","violation","exit","done"
	msg  string
}

// a panic of the program under test
type targetPanic struct {
	v     Value // interface value
	rt    string
	where string
}

type Machine struct {
	eng  *Engine
	tt   *TermTab
	sol  *Solver
	undo []undoEnt

	typeIDs map[types.Type]int
	typeMap typeutil.Map
	globals map[*ssa.Global]*Value
	funcs   map[*ssa.Function]*Func
	methods map[methodKey]*ssa.Function

	// path state
	prefix     []Decision
	pos        int
	decs       []Decision
	pc         []*Term
	model      Model
	vars       []*Term
	varInfo    []VarInfo
	varTaken   map[string]int
	steps      int64
	maxSteps   int64
	concrete   bool // baseline: no symbolic allowed
	nanCount   int
	reached    map[string]bool
	observed   []Observation
	pathNote   []string
	newWork    []WorkItem
	unknowns   int
	asserts    int
	symAsserts int
	violated   *Violation
	allocs     int64

	// threads
	threads     []*Thread
	cur         *Thread
	interleave  int // 0 off, 1 sync points, 2 memory accesses of the code under test
	preempts    int
	maxPreempts int
	schedN      int
	races       *raceState
	recordLogs  bool
	mapOrder    bool
	aborting    bool
	mainAbort   *pathAbort

	reflectTypes map[int]*rtype
	natState     map[string]any
	fr0          *Frame
	depth        int
	lastFns      []string
	onceInit     map[string]bool
	trace        bool
	cover        map[*Func]bool
	hangLimit    int64
	sliceCap     int
	bodies       map[*ssa.Function]*Func
	implCache    map[implKey]bool
	jsonReg      []Value
}

type VarInfo struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	W    uint8  `json:"w"`
}

type Observation struct {
	Label string
	V     Value
	W     int
	Str   bool
}

type Violation struct {
	Msg   string
	Kind  string
	Where string
	Model Model
	Vars  []VarInfo
	Stack []string
}

type methodKey struct {
	t    int
	name string
	pkg  *types.Package
}

type Thread struct {
	id      int
	wake    chan struct{}
	cond    func() bool
	done    bool
	exited  chan struct{}
	depth   int
	fr      *Frame
	started bool
}

type Frame struct {
	fn        *Func
	regs      []Value
	caller    *Frame
	defers    []func()
	panicking bool
	panicVal  *targetPanic
	goPanic   any
	result    Value
	block     int
	prev      int
	pos       ssa.Instruction
	status    int
}

func (m *Machine) unsupported(msg string) {
	panic(&pathAbort{kind: "unsupported", msg: msg + m.whereStr()})
}

func (m *Machine) whereStr() string {
	var sb strings.Builder
	fr := m.curFrame()
	n := 0
	for fr != nil && n < 8 {
		sb.WriteString(" < " + fr.fn.name)
		fr = fr.caller
		n++
	}
	return sb.String()
}

func (m *Machine) curFrame() *Frame {
	if m.cur != nil {
		return m.cur.fr
	}
	return nil
}

func (m *Machine) stack() []string {
	var r []string
	fr := m.curFrame()
	for fr != nil && len(r) < 30 {
		p := ""
		if fr.pos != nil && fr.pos.Pos().IsValid() {
			pp := m.eng.prog.Fset.Position(fr.pos.Pos())
			p = fmt.Sprintf(" %s:%d", strings.TrimPrefix(pp.Filename, "/repo/"), pp.Line)
		}
		r = append(r, fr.fn.name+p)
		fr = fr.caller
	}
	return r
}

// rtPanic raises a runtime error panic in the program under test.
func (m *Machine) rtPanic(msg string) {
	v := m.runtimeError(msg)
	panic(&targetPanic{v: v, rt: "runtime error: " + msg, where: strings.Join(m.stack(), " < ")})
}

func (m *Machine) runtimeError(msg string) Value {
	// runtime.errorString implements error; build it when the type is loaded
	if t := m.eng.rtErrType; t != nil {
		return Value{R: &Iface{T: t, V: mkStr(msg)}}
	}
	return Value{R: &Iface{T: types.Typ[types.String], V: mkStr("runtime error: " + msg)}}
}

// ---- decisions

func (m *Machine) addPC(t *Term) {
	if t.op == OConst {
		if t.k == 0 {
			panic(&pathAbort{kind: "infeasible"})
		}
		return
	}
	m.pc = append(m.pc, t)
}

func (m *Machine) check(extra *Term) (SatRes, Model) {
	return m.sol.Check(m.pc, extra, m.vars, true)
}

func (m *Machine) setModel(md Model) {
	m.model = md
	m.tt.NewEpoch()
}

func (m *Machine) fork(d Decision, md Model) {
	p := make([]Decision, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = d
	m.newWork = append(m.newWork, WorkItem{prefix: p, model: md})
}

func (m *Machine) branch(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if m.concrete {
		m.unsupported("symbolic branch in baseline")
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		if d.Taken {
			m.addPC(c)
		} else {
			m.addPC(m.tt.Not(c))
		}
		return d.Taken
	}
	if m.eng.expired() {
		panic(&pathAbort{kind: "time"})
	}
	v := m.tt.Eval(c, m.model) == 1
	other := c
	if v {
		other = m.tt.Not(c)
	}
	m.profile()
	res, md := m.check(other)
	switch res {
	case SAT:
		m.fork(Decision{Taken: !v}, md)
	case UNKNOWN:
		m.unknowns++
	}
	m.decs = append(m.decs, Decision{Taken: v})
	m.pos++
	m.prefix = m.decs
	if v {
		m.addPC(c)
	} else {
		m.addPC(m.tt.Not(c))
	}
	return v
}

func (m *Machine) profile() {
	if m.eng.prof != nil {
		st := m.stack()
		if len(st) > 3 {
			st = st[:3]
		}
		m.eng.profMu.Lock()
		m.eng.prof[strings.Join(st, " < ")]++
		m.eng.profMu.Unlock()
	}
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if m.concrete {
		m.unsupported("symbolic value in baseline")
	}
	for {
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			m.pos++
			m.decs = append(m.decs, d)
			c := m.tt.Eq(t, m.tt.Const(d.Val, t.w))
			if d.Taken {
				m.addPC(c)
				return d.Val
			}
			m.addPC(m.tt.Not(c))
			continue
		}
		if m.eng.expired() {
			panic(&pathAbort{kind: "time"})
		}
		v := m.tt.Eval(t, m.model)
		c := m.tt.Eq(t, m.tt.Const(v, t.w))
		m.profile()
		res, md := m.check(m.tt.Not(c))
		switch res {
		case SAT:
			m.fork(Decision{Val: v, Taken: false}, md)
		case UNKNOWN:
			m.unknowns++
		}
		m.decs = append(m.decs, Decision{Val: v, Taken: true})
		m.pos++
		m.prefix = m.decs
		m.addPC(c)
		return v
	}
}

func (m *Machine) assume(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(&pathAbort{kind: "infeasible"})
		}
		return
	}
	if m.pos < len(m.prefix) || m.tt.Eval(c, m.model) == 1 {
		m.addPC(c)
		if m.tt.Eval(c, m.model) == 1 {
			return
		}
		// replaying with a model that does not satisfy it (should not happen)
		res, md := m.check(nil)
		if res == SAT {
			m.setModel(md)
			return
		}
		panic(&pathAbort{kind: "infeasible"})
	}
	res, md := m.check(c)
	switch res {
	case SAT:
		m.addPC(c)
		m.setModel(md)
		return
	case UNKNOWN:
		m.unknowns++
	}
	panic(&pathAbort{kind: "infeasible"})
}

func (m *Machine) assert(c *Term, msg string) {
	m.asserts++
	if c.op == OConst {
		if c.k == 1 {
			return
		}
		m.violation("assertion", msg, m.model)
	}
	m.symAsserts++
	neg := m.tt.Not(c)
	if m.tt.Eval(c, m.model) == 0 {
		m.violation("assertion", msg, m.model)
	}
	if m.pos < len(m.prefix) {
		// already decided on the path this one was forked from
		m.addPC(c)
		return
	}
	res, md := m.check(neg)
	switch res {
	case SAT:
		m.violation("assertion", msg, md)
	case UNKNOWN:
		m.unknowns++
	}
	m.addPC(c)
}

func (m *Machine) violation(kind, msg string, md Model) {
	if m.violated == nil {
		mm := Model{}
		for k, v := range md {
			mm[k] = v
		}
		m.violated = &Violation{Kind: kind, Msg: msg, Model: mm, Vars: append([]VarInfo{}, m.varInfo...), Stack: m.stack()}
	}
	panic(&pathAbort{kind: "violation", msg: msg})
}

// newVar creates a fresh symbolic variable; its creation index is its identity in a replay file.
func (m *Machine) newVar(label string, w uint8, kind string) *Term {
	if m.concrete {
		m.unsupported("nondet in baseline")
	}
	name := fmt.Sprintf("n%d_%d_%s", len(m.varInfo), w, label)
	t := m.tt.Var(name, w)
	m.vars = append(m.vars, t)
	m.varInfo = append(m.varInfo, VarInfo{Name: name, Kind: kind, W: w})
	return t
}

// ---- running a path

type WorkItem struct {
	prefix []Decision
	model  Model
}

func (m *Machine) resetPath(it WorkItem) {
	m.prefix = it.prefix
	m.pos = 0
	m.decs = make([]Decision, 0, len(it.prefix)+16)
	m.pc = m.pc[:0]
	m.vars = m.vars[:0]
	m.varInfo = m.varInfo[:0]
	if it.model == nil {
		it.model = Model{}
	}
	m.setModel(it.model)
	m.steps = 0
	m.hangLimit = 0
	if m.eng != nil && !m.concrete {
		m.maxSteps = m.eng.maxSteps
	}
	m.reached = map[string]bool{}
	m.observed = nil
	m.newWork = nil
	m.unknowns = 0
	m.asserts = 0
	m.symAsserts = 0
	m.violated = nil
	m.threads = nil
	m.interleave = 0
	m.races = nil
	m.recordLogs = false
	m.preempts = 0
	m.maxPreempts = 0
	m.schedN = 0
	m.mapOrder = false
	m.aborting = false
	m.mainAbort = nil
	m.natState = map[string]any{}
	m.pathNote = nil
	m.nanCount = 0
	if len(m.tt.tab) > 1500000 {
		m.resetTerms()
	}
}

func (m *Machine) resetTerms() {
	m.tt = NewTermTab()
	m.sol.restart()
}

// runPath executes fn from the baseline with the given decision prefix.
func (m *Machine) runPath(fn *ssa.Function, it WorkItem) (out pathAbort) {
	base := len(m.undo)
	m.resetPath(it)
	main := &Thread{id: 0, wake: make(chan struct{}, 1), started: true}
	m.threads = []*Thread{main}
	m.cur = main
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = m.classify(r)
			}
		}()
		m.callFn(nil, fn, nil, nil)
		out = pathAbort{kind: "done"}
	}()
	if m.mainAbort != nil {
		out = *m.mainAbort
	}
	// end all other threads
	m.aborting = true
	for _, t := range m.threads[1:] {
		if !t.done {
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	m.rollback(base)
	return out
}

func (m *Machine) classify(r any) (out pathAbort) {
	switch p := r.(type) {
	case *pathAbort:
		return *p
	case *targetPanic:
		msg := m.panicText(p)
		if m.violated == nil {
			mm := Model{}
			for k, v := range m.model {
				mm[k] = v
			}
			m.violated = &Violation{Kind: "panic", Msg: msg, Model: mm, Vars: append([]VarInfo{}, m.varInfo...), Where: p.where}
		}
		return pathAbort{kind: "violation", msg: "panic: " + msg}
	default:
		st := string(debug.Stack())
		if os.Getenv("GOSYMEX_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "ENGINE ERROR:", r, "\n", strings.Join(m.stack(), "\n  "), "\n", st)
		}
		return pathAbort{kind: "unsupported", msg: fmt.Sprintf("engine error: %v%s", r, m.whereStr())}
	}
}

func (m *Machine) panicText(p *targetPanic) (s string) {
	if p.rt != "" {
		return p.rt
	}
	defer func() {
		if recover() != nil {
			s = "panic"
		}
	}()
	if p.v.R == nil {
		return "nil"
	}
	ifc := p.v.R.(*Iface)
	if isString(ifc.T) {
		if s, ok := m.concStr(ifc.V); ok {
			return s
		}
		return "<symbolic string>"
	}
	if t, ok := m.errorText(p.v); ok {
		return t
	}
	return ifc.T.String()
}

// errorText renders an error value (best effort, concrete parts only)
func (m *Machine) errorText(v Value) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			s, ok = "", false
		}
	}()
	if v.R == nil {
		return "<nil>", true
	}
	fn := m.findMethod(v.R.(*Iface).T, "Error", nil)
	if fn == nil {
		return "", false
	}
	sv := m.callFn(nil, fn, []Value{v.R.(*Iface).V}, nil)
	return m.render(sv), true
}

func (m *Machine) render(v Value) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if b[i].T != nil {
			out[i] = byte(m.tt.Eval(b[i].T, m.model))
		} else {
			out[i] = b[i].C
		}
	}
	return string(out)
}

// ---- threads

func (m *Machine) spawn(f func()) {
	t := &Thread{id: len(m.threads), wake: make(chan struct{}, 1), exited: make(chan struct{})}
	m.threads = append(m.threads, t)
	m.hbSpawn(t.id)
	go func() {
		defer close(t.exited)
		<-t.wake
		if m.aborting {
			t.done = true
			return
		}
		defer func() {
			r := recover()
			t.done = true
			if m.aborting {
				return
			}
			if r != nil {
				out := m.classify(r)
				m.mainAbort = &out
				m.aborting = true
				m.threads[0].wake <- struct{}{}
				return
			}
			// hand the token to someone else
			m.handOff(t)
		}()
		f()
	}()
	m.syncPoint()
}

func (t *Thread) runnable() bool { return !t.done && (t.cond == nil || t.cond()) }

// handOff is called by an ending thread: picks another runnable one.
func (m *Machine) handOff(t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			out := m.classify(r)
			m.mainAbort = &out
			m.aborting = true
			m.threads[0].wake <- struct{}{}
		}
	}()
	n := m.pick(t)
	if n == nil {
		m.mainAbort = &pathAbort{kind: "deadlock"}
		m.violDeadlock()
		m.aborting = true
		m.threads[0].wake <- struct{}{}
		return
	}
	m.cur = n
	n.wake <- struct{}{}
}

func (m *Machine) violDeadlock() {
	if m.violated == nil {
		mm := Model{}
		for k, v := range m.model {
			mm[k] = v
		}
		m.violated = &Violation{Kind: "deadlock", Msg: "deadlock: every goroutine is blocked", Model: mm, Vars: append([]VarInfo{}, m.varInfo...), Stack: m.stack()}
	}
	m.mainAbort = &pathAbort{kind: "violation", msg: "deadlock"}
}

// pick chooses the next thread to run when the current one cannot go on.
func (m *Machine) pick(cur *Thread) *Thread {
	var r []*Thread
	for _, t := range m.threads {
		if t.runnable() {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 || m.interleave == 0 {
		// lowest id after cur, round robin
		for _, t := range r {
			if t.id > cur.id {
				return t
			}
		}
		return r[0]
	}
	return r[m.schedChoice(len(r))]
}

func (m *Machine) schedChoice(n int) int {
	v := m.newVar("sched", 8, "sched")
	m.assume(m.tt.Cmp(OULt, v, m.tt.Const(uint64(n), 8)))
	return int(m.concretize(v))
}

func (m *Machine) switchTo(n *Thread) {
	c := m.cur
	if n == c {
		return
	}
	m.cur = n
	n.started = true
	n.wake <- struct{}{}
	<-c.wake
	if m.aborting {
		panic(&pathAbort{kind: "threadabort"})
	}
	m.cur = c
}

// blockUntil suspends the current thread until cond holds.
func (m *Machine) blockUntil(cond func() bool) {
	c := m.cur
	for !cond() {
		c.cond = cond
		n := m.pick(c)
		if n == nil {
			c.cond = nil
			m.violDeadlock()
			panic(&pathAbort{kind: "violation", msg: "deadlock"})
		}
		if n == c {
			c.cond = nil
			continue
		}
		m.switchTo(n)
		c.cond = nil
	}
}

// syncPoint: a place where another thread may run (interleaving exploration).
func (m *Machine) syncPoint() {
	if m.interleave == 0 || m.cur == nil || len(m.threads) < 2 {
		return
	}
	if m.preempts >= m.maxPreempts {
		return
	}
	var r []*Thread
	r = append(r, m.cur)
	for _, t := range m.threads {
		if t != m.cur && t.runnable() {
			r = append(r, t)
		}
	}
	if len(r) == 1 {
		return
	}
	k := m.schedChoice(len(r))
	if k != 0 {
		m.preempts++
		m.switchTo(r[k])
	}
}

// yieldNow lets the others run until they block (used for Gosched/Sleep).
func (m *Machine) yieldNow() {
	if m.cur == nil {
		return
	}
	for _, t := range m.threads {
		if t.id > m.cur.id && t.runnable() {
			m.switchTo(t)
			return
		}
	}
	for _, t := range m.threads {
		if t != m.cur && t.runnable() {
			m.switchTo(t)
			return
		}
	}
}
