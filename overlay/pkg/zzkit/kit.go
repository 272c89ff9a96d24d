// Package zzkit holds what the harnesses share: records, an input and a logger.
package zzkit

import (
	"errors"
	"io"
	"time"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzrt"
	"github.com/sirupsen/logrus"
)

// Logger discards everything; Fatal ends up in zzrt.Exit.
func Logger() *logrus.Entry {
	l := &logrus.Logger{
		Out:       io.Discard,
		Formatter: &logrus.TextFormatter{},
		Hooks:     logrus.LevelHooks{},
		Level:     logrus.PanicLevel,
		ExitFunc:  zzrt.Exit,
	}
	return logrus.NewEntry(l)
}

// Recorder keeps what is logged and whether the process would have ended (see zzrt.Logs).
func Recorder() *logrus.Entry {
	e := Logger()
	e.Logger.Level = logrus.TraceLevel
	if !zzrt.Symbolic() {
		e.Logger.Hooks.Add(hook{})
	}
	zzrt.RecordLogs(true)
	return e
}

type hook struct{}

func (hook) Levels() []logrus.Level { return logrus.AllLevels }
func (hook) Fire(e *logrus.Entry) error {
	zzrt.Logged(int(e.Level), e.Message)
	return nil
}

// Rec is a record held in memory; unknown properties are errors.
type Rec struct {
	V   map[string]interface{}
	Pos record.Position
}

func (r *Rec) All() (map[string]interface{}, error) {
	m := make(map[string]interface{})
	for k, v := range r.V {
		m[k] = v
	}
	return m, nil
}

func (r *Rec) Get(path string) (interface{}, error) {
	v, ok := r.V[path]
	if !ok {
		return nil, errors.New("unknown property")
	}
	return v, nil
}

func (r *Rec) Position() record.Position { return r.Pos }

var ErrInput = errors.New("input failure")

// Input serves records held in memory and can fail at any step.
type Input struct {
	InputName string
	Recs      []*Rec
	SizeV     int64
	SizeErr   error
	Mod       time.Time
	ModErr    error
	FailIter  bool // IterateAll itself fails
	FailNext  int  // the n-th next (0-based) fails; -1 never
	FailGet   int  // the n-th Get fails; -1 never
	FailEnd   bool
	Hook      func(what string) error // called by every use but Get

	Opened, Closed int
	gets           int
	Scans          int
}

func NewInput(name string, recs ...*Rec) *Input {
	return &Input{InputName: name, Recs: recs, SizeV: 100, Mod: time.Unix(1600000000, 0), FailNext: -1, FailGet: -1}
}

func (in *Input) Name() string { return in.InputName }
func (in *Input) Close() error { return nil }

func (in *Input) use(what string) error {
	if in.Hook != nil {
		return in.Hook(what)
	}
	return nil
}

func (in *Input) Size() (int64, error) {
	if err := in.use("size"); err != nil {
		return 0, err
	}
	return in.SizeV, in.SizeErr
}

func (in *Input) ModTime() (time.Time, error) {
	if err := in.use("time"); err != nil {
		return time.Time{}, err
	}
	return in.Mod, in.ModErr
}

func (in *Input) Get(p record.Position) (record.Record, error) {
	k := in.gets
	in.gets++
	if k == in.FailGet {
		return nil, ErrInput
	}
	for _, r := range in.Recs {
		if r.Pos == p {
			return r, nil
		}
	}
	return nil, errors.New("no record at this position")
}

func (in *Input) IterateAll() (record.Iterator, func() error, error) {
	if err := in.use("iterate"); err != nil {
		return nil, nil, err
	}
	if in.FailIter {
		return nil, nil, ErrInput
	}
	in.Opened++
	in.Scans++
	i, calls, closed := 0, 0, false
	next := func() (record.Record, error) {
		if err := in.use("next"); err != nil {
			return nil, err
		}
		k := calls
		calls++
		if k == in.FailNext {
			return nil, ErrInput
		}
		if i >= len(in.Recs) {
			return nil, nil
		}
		r := in.Recs[i]
		i++
		return r, nil
	}
	end := func() error {
		if !closed {
			closed = true
			in.Closed++
		}
		if in.FailEnd {
			return ErrInput
		}
		return nil
	}
	return next, end, nil
}

// Drain reads an iterator to its end, giving up beyond max positions.
func Drain(it record.PositionIterator, max int) ([]record.Position, error) {
	var out []record.Position
	for {
		p, err := it()
		if err != nil {
			return out, err
		}
		if p == nil {
			return out, nil
		}
		out = append(out, *p)
		if len(out) > max {
			zzrt.Fail("an iterator returns more positions than there are records")
		}
	}
}

func Bool(b bool) *bool { return &b }

// SamePositions compares without forking on symbolic contents.
func SamePositions(a, b []record.Position) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = zzrt.And(ok, a[i] == b[i])
	}
	return ok
}

// SameBytes compares without forking.
func SameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = zzrt.And(ok, a[i] == b[i])
	}
	return ok
}
