// Package zzrt is the harness interface: symbolic values, assumptions and assertions.
// Compiled natively it replays one concrete assignment; under gosymex every function
// below is intercepted (the ones marked "intercepted") by the symbolic executor.
package zzrt

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// ---- native state

type Failure struct{ Msg string }
type Skip struct{ Msg string }

var (
	mu       sync.Mutex
	vals     []uint64
	pos      int
	params   = map[string]int{}
	dir      string
	Observed []string
	reached  = map[string]bool{}
	atEnd    []func()
)

// Setup prepares a native replay.
func Setup(values []uint64, p map[string]int, d string) {
	vals, pos, params, dir = values, 0, p, d
	Observed = nil
	exitCode = -1
	recordLogs(false)
	jitterHook(false)
}

// AtEnd is called when a native replay ends (nothing to do under gosymex, intercepted).
func AtEnd(f func()) {
	mu.Lock()
	defer mu.Unlock()
	atEnd = append(atEnd, f)
}

// End releases what a native replay left open.
func End() {
	for len(atEnd) > 0 {
		f := atEnd[len(atEnd)-1]
		atEnd = atEnd[:len(atEnd)-1]
		func() {
			defer func() { recover() }()
			f()
		}()
	}
}

func next() uint64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(vals) {
		pos++
		return 0 // not constrained by the counterexample
	}
	v := vals[pos]
	pos++
	return v
}

// ---- symbolic values (intercepted)

func Byte(label string) byte     { return byte(next()) }
func Bool(label string) bool     { return next()&1 == 1 }
func Int64(label string) int64   { return int64(next()) }
func Uint64(label string) uint64 { return next() }
func Int(label string) int       { return int(next()) }
func Float64bits(label string) uint64 { return next() }

// Choice returns a value in [0,n), made concrete (one path per value).
func Choice(label string, n int) int { return int(next()) }

// Range returns a symbolic int in [lo,hi].
func Range(label string, lo, hi int) int {
	v := Int(label)
	Assume(v >= lo && v <= hi)
	return v
}

// Concrete forces v to one concrete value per path.
func Concrete(v int) int { return v }

// Param is a bound of the harness set by the check configuration.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

func Assume(c bool) {
	if !c {
		panic(Skip{"assumption not satisfied"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

func Fail(msg string) { panic(Failure{msg}) }

// Reach marks a point that must be reachable (vacuity witness).
func Reach(label string) { reached[label] = true }

// Observe records a value that must agree between symbolic and native execution.
func Observe(label string, v int64) { Observed = append(Observed, fmt.Sprintf("%s=%d", label, v)) }
func ObserveStr(label string, v string) {
	Observed = append(Observed, fmt.Sprintf("%s=%q", label, v))
}

// ---- execution control (intercepted; no effect natively)

// Interleave turns on exploration of schedules: level 1 at synchronization and file
// operations, level 2 also at memory accesses of the code under test.
// natively, operations on files take a varying time.
func Interleave(level int, maxPreemptions int) { jitterHook(level > 0) }

var jitterHook = func(on bool) {}

// Races looks, along each path, for accesses of goroutines to the same memory that nothing orders
// (natively, the race detector does).
func Races(on bool) {}

// MapOrder makes map iteration order in the code under test a symbolic choice.
func MapOrder(on bool) {}

// MustTerminate makes running more than the given number of steps from here a violation
// (confirmed natively by a timeout).
func MustTerminate(steps int) {}

func Symbolic() bool { return false }

// Guess returns any of n answers of a model that leaves it open. Models do not run natively.
func Guess(n int) int { return 0 }

// Unsupported ends the path: a model does not cover this case. Models do not run natively.
func Unsupported(what string) {}

// ---- formulas without forking (intercepted)

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Contains: sub occurs in s.
func Contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

// LowerASCII maps A-Z to a-z.
func LowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ---- files

// Path returns the path of a scratch file.
func Path(name string) string { return filepath.Join(dir, name) }

// OpenFiles returns the number of open files below the scratch directory.
func OpenFiles() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && len(t) > len(dir) && t[:len(dir)] == dir {
			n++
		}
	}
	return n
}

// Modify writes to a file, which its watchers get to know.
func Modify(path string) {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(Skip{"cannot modify the file"})
	}
	defer f.Close()
	b := make([]byte, 1)
	if n, _ := f.ReadAt(b, 0); n == 1 {
		f.WriteAt(b, 0)
	} else {
		f.WriteAt([]byte("\n"), 0)
	}
	time.Sleep(60 * time.Millisecond)
}

// OpenWatchers counts the inotify instances of the process.
func OpenWatchers() int {
	ents, _ := os.ReadDir("/proc/self/fd")
	n := 0
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && t == "anon_inode:inotify" {
			n++
		}
	}
	return n
}

// FaultAt makes the op-th change of a file (creation, truncation, write, removal, rename) from
// now on fail (fail=true, keeping its first bytes on disk and nothing afterwards) or be the last
// thing the process does (fail=false: its first bytes reach the disk, and nothing afterwards).
// A process that is stopped unwinds with Crashed.
func FaultAt(op, bytes int, fail bool) { faultHook(op, bytes, fail) }

// FaultsOff ends the fault and tells how many changes were attempted and whether it struck.
func FaultsOff() (ops int, hit bool) { return faultOffHook() }

// FailAt makes the op-th opening, reading, seeking, asking for the status or watching of a file from now on
// fail (the names ending in .db are left alone).
func FailAt(op int) { failHook(op) }

// FailOff ends it and tells how many operations were attempted and whether one failed.
func FailOff() (ops int, hit bool) { return failOffHook() }

var (
	failHook    = func(op int) { panic(Skip{"no native fault injection in this build"}) }
	failOffHook = func() (int, bool) { return 0, false }

	faultHook    = func(op, bytes int, fail bool) { panic(Skip{"no native fault injection in this build"}) }
	faultOffHook = func() (int, bool) { return 0, false }
)

// ---- process exit (logger Fatal / os.Exit) capture

var exitCode = -1

type Exited struct{ Code int }

// Crashed unwinds the stack of a process that was stopped (nothing it does reaches the disk any more).
type Crashed struct{}

func Crash() { panic(Crashed{}) }

// Log is a message of a logger made by zzkit.Recorder.
type Log struct {
	Level int // 1 fatal, 2 error, 3 warning...
	Text  string
}

var (
	logMu  sync.Mutex
	logs   []Log
	exits  []int
	record bool
)

// RecordLogs keeps the messages of the loggers, and the exits instead of ending the harness.
func RecordLogs(on bool) { recordLogs(on) }

func recordLogs(on bool) {
	logMu.Lock()
	logs, exits, record = nil, nil, on
	logMu.Unlock()
}

func Logged(level int, text string) {
	logMu.Lock()
	logs = append(logs, Log{level, text})
	logMu.Unlock()
}

// Logs returns what has been recorded.
func Logs() ([]Log, []int) {
	logMu.Lock()
	defer logMu.Unlock()
	return append([]Log{}, logs...), append([]int{}, exits...)
}

// Settle lets the other goroutines run until they wait.
func Settle() { time.Sleep(20 * time.Millisecond) }

// Exit is installed as the logger's exit function.
func Exit(code int) {
	if record {
		logMu.Lock()
		exits = append(exits, code)
		logMu.Unlock()
		return
	}
	exitCode = code
	panic(Exited{code})
}

// Try runs f and reports how it ended: "" normally, "exit" when the process would have
// exited, otherwise "panic: ...".
func Try(f func()) (how string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Failure, Skip:
				panic(r)
			case Exited:
				how = "exit"
			case Crashed:
				how = "crash"
			case error:
				how = "panic: " + x.Error()
			default:
				how = "panic"
			}
		}
	}()
	f()
	return ""
}

// ---- helpers built on the primitives (interpreted as ordinary code)

// String returns a text of length 0..max with arbitrary bytes.
func String(label string, max int) string {
	n := Choice(label+".len", max+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return string(b)
}

// StringN returns a text of exactly n arbitrary bytes.
func StringN(label string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return string(b)
}

func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return b
}

// StringOf returns a text of length 0..max over the given alphabet (bytes stay symbolic).
func StringOf(label string, max int, alphabet string) string {
	n := Choice(label+".len", max+1)
	return StringOfN(label, n, alphabet)
}

func StringOfN(label string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteOf(label, alphabet)
	}
	return string(b)
}

// ByteOf returns a byte of the alphabet (symbolic).
func ByteOf(label string, alphabet string) byte {
	c := Byte(label)
	AssumeIn(c, alphabet)
	return c
}

// AssumeIn assumes c occurs in alphabet (intercepted: one constraint, no fork).
func AssumeIn(c byte, alphabet string) {
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == c {
			return
		}
	}
	panic(Skip{"byte outside the alphabet"})
}
