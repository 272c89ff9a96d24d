// Package outs: the outputs (C22 pages, C23 filters, C24 relationships, C25 answers).
package outs

import (
	"errors"
	"io"
	"math"
	"strconv"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// rec shows the properties of shown in All, and those of shown and hidden in Get.
type rec struct {
	shown, hidden map[string]interface{}
	pos           record.Position
	failAll       bool
}

func (r *rec) All() (map[string]interface{}, error) {
	if r.failAll {
		return nil, zzkit.ErrInput
	}
	m := make(map[string]interface{})
	for k, v := range r.shown {
		m[k] = v
	}
	return m, nil
}

func (r *rec) Get(path string) (interface{}, error) {
	if v, ok := r.hidden[path]; ok {
		return v, nil
	}
	if v, ok := r.shown[path]; ok {
		return v, nil
	}
	return nil, errors.New("unknown property")
}

func (r *rec) Position() record.Position { return r.pos }

// source is an input in memory whose steps can fail.
type source struct {
	*zzkit.Input
	recs     []*rec
	gets     int
	steps    int // calls so far
	failStep int // the call that fails, -1 for none
	failErr  error
}

func newSource(name string, recs ...*rec) *source {
	return &source{Input: zzkit.NewInput(name), recs: recs, failStep: -1, failErr: zzkit.ErrInput}
}

func (s *source) fails() bool {
	s.steps++
	return s.steps-1 == s.failStep
}

func (s *source) Get(p record.Position) (record.Record, error) {
	if s.fails() {
		return nil, s.failErr
	}
	for _, r := range s.recs {
		if r.pos == p {
			s.gets++
			return r, nil
		}
	}
	return nil, errors.New("no record at this position")
}

func (s *source) IterateAll() (record.Iterator, func() error, error) {
	if s.fails() {
		return nil, nil, s.failErr
	}
	s.Opened++
	i, closed := 0, false
	next := func() (record.Record, error) {
		if s.fails() {
			return nil, s.failErr
		}
		if i >= len(s.recs) {
			return nil, nil
		}
		i++
		return s.recs[i-1], nil
	}
	end := func() error {
		if !closed {
			closed = true
			s.Closed++
		}
		if s.fails() {
			return s.failErr
		}
		return nil
	}
	return next, end, nil
}

// answer records what an output does with its two ways of answering.
type answer struct {
	errs    []error
	success int
	body    []byte
	late    bool // something was written or announced after an answer was given
	tooSoon bool // success was announced before a failure
}

func (a *answer) Write(p []byte) (int, error) {
	a.body = append(a.body, p...)
	return len(p), nil
}

func (a *answer) sendError(err error) error {
	a.errs = append(a.errs, err)
	return nil
}

func (a *answer) sendSuccess() io.Writer {
	a.success++
	return a
}

func ask(out output.Output, params map[string]string) *answer {
	a := &answer{}
	err := out.Handle(params, nil, a.sendError, a.sendSuccess)
	zzrt.Assert(err == nil, "the request ends without an answer: its failure is only reported to the service")
	zzrt.Assert(a.success+len(a.errs) == 1, "a request is not answered exactly once")
	zzrt.Assert(a.success == 1 || len(a.body) == 0, "an error comes with data")
	zzrt.Assert(a.success == 0 || len(a.body) > 0, "success comes without a document")
	if len(a.errs) == 1 {
		zzrt.Assert(a.errs[0] != nil && a.errs[0].Error() != "", "an error comes without a message")
	}
	return a
}

// trim removes the white space around a document.
func trim(b []byte) []byte {
	for len(b) > 0 && b[len(b)-1] == '\n' {
		b = b[:len(b)-1]
	}
	return b
}

func (a *answer) mustBe(doc string, what string) {
	if len(a.errs) > 0 {
		zzrt.Fail(what + ": an error is returned instead of data: " + a.errs[0].Error())
	}
	zzrt.Assert(zzkit.SameBytes(trim(a.body), []byte(doc)), what)
}

func parsers() parser.List {
	s, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		zzrt.Fail("no string parser")
	}
	return parser.List{
		"string":  s,
		"integer": parser.NewInteger(&parser.IntegerConfig{Name: "integer"}),
		"boolean": parser.NewBoolean(&parser.BooleanConfig{Name: "boolean", TrueValues: []string{"t"}, FalseValues: []string{"f"}}),
	}
}

func noop(ins input.List) *index.Noop {
	return index.NewNoop(&index.NoopConfig{Name: "default", Logger: zzkit.Logger()}, ins)
}

func mapIndex(name, in string, ins input.List, props ...string) index.Index {
	m, err := index.NewMap(&index.MapConfig{Name: name, Input: in, Properties: props, Logger: zzkit.Logger()}, ins)
	if err != nil {
		zzrt.Fail("building an index fails: " + err.Error())
	}
	return m
}

func makeArray(conf *output.JsonArrayConfig, ins input.List, ixs index.List) output.Output {
	conf.Name, conf.Input, conf.Logger = "out", "in", zzkit.Logger()
	if conf.Limit.Default == 0 {
		conf.Limit = output.JsonArrayLimitConfig{Default: 100, Max: 1000, Parameter: "limit"}
	}
	conf.Offset.Parameter = "offset"
	out, err := output.NewJsonArray(conf, ins, ixs["default"], ixs, parsers())
	if err != nil {
		zzrt.Fail("making the output fails: " + err.Error())
	}
	return out
}

func makeObject(conf *output.JsonObjectConfig, ins input.List, ixs index.List) output.Output {
	conf.Name, conf.Input, conf.Logger = "out", "in", zzkit.Logger()
	out, err := output.NewJsonObject(conf, ins, ixs["default"], ixs, parsers())
	if err != nil {
		zzrt.Fail("making the output fails: " + err.Error())
	}
	return out
}

// number reads a decimal integer of an int64, signed or not.
func number(s string) (v int64, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	for len(s) > 1 && s[0] == '0' {
		s = s[1:]
	}
	if len(s) > 19 {
		return 0, false
	}
	u := uint64(0)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		u = u*10 + uint64(s[i]-'0')
	}
	if neg {
		if u > 1<<63 {
			return 0, false
		}
		return -int64(u), true
	}
	if u > math.MaxInt64 {
		return 0, false
	}
	return int64(u), true
}

func numberText(label string) string {
	switch zzrt.Choice(label+" kind", zzrt.Param("texts", 4)) {
	case 0:
		return zzrt.StringOf(label, zzrt.Param("len", 2), "0123-+ a.")
	case 1:
		return "922337203685477580" + zzrt.StringOfN(label, 1, "6789")
	case 2:
		return "-922337203685477580" + zzrt.StringOfN(label, 1, "789")
	case 3:
		return []string{"4294967296", "4294967297", "18446744073709551617", "-18446744073709551615", "0x1", "1_0", "１", "1e1", "+1", "00000000000000000001"}[zzrt.Choice(label, 10)]
	}
	return zzrt.String(label, zzrt.Param("len", 2))
}

// HPage: C22.
func HPage() {
	n := zzrt.Choice("records", zzrt.Param("recs", 3)+1)
	var recs []*rec
	for i := 0; i < n; i++ {
		recs = append(recs, &rec{
			shown:  map[string]interface{}{"i": int64(i)},
			hidden: map[string]interface{}{"a": zzrt.StringOfN("value", 1, "ab")},
			pos:    record.Position(i * 7),
		})
	}
	in := newSource("in", recs...)
	ins := input.List{"in": in}
	ixs := index.List{"default": noop(ins)}
	if zzrt.Param("indexed", 0) == 1 {
		ixs["m"] = mapIndex("m", "in", ins, "a")
	} else {
		ixs["m"] = ixs["default"]
	}
	def, max := zzrt.Uint64("default"), zzrt.Uint64("max")
	zzrt.Assume(def > 0 && def <= max)
	out := makeArray(&output.JsonArrayConfig{
		Limit:      output.JsonArrayLimitConfig{Default: uint(def), Max: uint(max), Parameter: "count"},
		Parameters: map[string]*parameter.ParameterConfig{"a": {Property: "a", Index: "m", Parser: "string"}, "b": {Property: "a", Index: "default", Parser: "string"}},
	}, ins, ixs)

	params := map[string]string{}
	filtered := zzrt.Choice("filtered", zzrt.Param("filters", 3))
	if filtered >= 1 {
		params["a"] = "a"
	}
	if filtered == 2 {
		params["b"] = "a"
	}
	limit, offset, valid := def, uint64(0), true
	if zzrt.Choice("has limit", 2) == 1 {
		t := numberText("limit")
		params["count"] = t
		v, ok := number(t)
		if !ok || v <= 0 {
			valid = false
		} else {
			limit = uint64(v)
		}
	}
	if limit > max {
		limit = max
	}
	if zzrt.Choice("has offset", 2) == 1 {
		t := numberText("offset")
		params["offset"] = t
		v, ok := number(t)
		if !ok || v < 0 {
			valid = false
		} else {
			offset = uint64(v)
		}
	}
	a := ask(out, params)
	if !valid {
		zzrt.Assert(len(a.errs) == 1, "a wrong limit or offset is accepted")
		zzrt.Reach("refused")
		return
	}
	doc, seen, rows := "[", uint64(0), uint64(0)
	for i, r := range recs {
		if filtered > 0 && r.hidden["a"].(string) != "a" {
			continue
		}
		if seen >= offset && rows < limit {
			if rows > 0 {
				doc += ","
			}
			doc += `{"i":` + strconv.Itoa(i) + "}"
			rows++
		}
		seen++
	}
	a.mustBe(doc+"]", "the response is not the requested page")
	if rows > 0 {
		zzrt.Reach("rows")
	} else {
		zzrt.Reach("empty")
	}
}

var _ = relationship.RelationshipConfig{}
