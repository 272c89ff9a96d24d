// Package path: nested property paths (C16).
package path

import (
	"errors"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

var leaves int64

// value returns a value of any shape; all leaves are different.
func value(label string, depth int) interface{} {
	n := 3
	if depth > 0 {
		n = 5
	}
	leaves++
	switch zzrt.Choice(label, n) {
	case 0:
		return leaves
	case 1:
		return nil
	case 2:
		return "text"
	case 3:
		l := make([]interface{}, zzrt.Choice(label+" length", zzrt.Param("items", 2)+1))
		for i := range l {
			l[i] = value(label, depth-1)
		}
		return l
	}
	m := map[string]interface{}{}
	keys := []string{"a", "1", "-1", ""}
	for i := 0; i < zzrt.Param("keys", 2); i++ {
		m[keys[i]] = value(label, depth-1)
	}
	return m
}

const (
	isValue = iota
	isError
	isNullOrError
)

func number(s string) (n int, huge, ok bool) {
	neg, i := false, 0
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return 0, false, false
	}
	digits, small := true, true
	for k := i; k < len(s); k++ {
		digits = zzrt.And(digits, s[k] >= '0', s[k] <= '9')
		if k < len(s)-2 {
			small = zzrt.And(small, s[k] == '0')
		}
		n = n*10 + int(s[k]-'0')
	}
	if !digits {
		return 0, false, false
	}
	if !small {
		n = 1 << 30
	}
	if neg {
		n = -n
	}
	return n, len(s) > 18, true
}

// walk follows the path: the first step decides, then the rest.
func walk(v interface{}, path string, more bool) (interface{}, int) {
	if !more {
		return v, isValue
	}
	end := 0
	for end < len(path) && path[end] != '.' {
		end++
	}
	step, rest, more := path[:end], "", end < len(path)
	if more {
		rest = path[end+1:]
	}
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == step {
				return walk(e, rest, more)
			}
		}
		return nil, isValue
	case []interface{}:
		n, huge, ok := number(step)
		if !ok {
			return nil, isError
		}
		if n < 0 || n >= len(x) {
			if huge {
				return nil, isNullOrError
			}
			return nil, isValue
		}
		return walk(x[n], rest, more)
	}
	return nil, isError
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			e, ok := y[k]
			if !ok || !equal(x[k], e) {
				return false
			}
		}
		return true
	}
	return false
}

func text(label string, max int) string {
	if n := zzrt.Param("steps", 0); n > 0 {
		p := ""
		for i := zzrt.Choice(label+" steps", n); i >= 0; i-- {
			p += []string{"a", "0", "1", "-1", "", "b"}[zzrt.Choice(label, 6)]
			if i > 0 {
				p += "."
			}
		}
		return p
	}
	if zzrt.Param("anybytes", 0) == 1 {
		return zzrt.String(label, max)
	}
	return zzrt.StringOf(label, max, "a.01-")
}

func check(got interface{}, err error, want interface{}, kind int) {
	switch kind {
	case isValue:
		zzrt.Assert(err == nil, "a path that applies gives an error")
		zzrt.Assert(equal(got, want), "a path gives the wrong value")
		if want == nil {
			zzrt.Reach("null")
		} else {
			zzrt.Reach("value")
		}
	case isError:
		zzrt.Assert(err != nil, "a path that does not apply gives no error")
		zzrt.Reach("error")
	case isNullOrError:
		zzrt.Assert(err != nil || got == nil, "a path gives the wrong value")
	}
}

type constParser struct{ v interface{} }

func (p *constParser) Name() string             { return "c" }
func (p *constParser) GetRegexpPattern() string { return ".*" }
func (p *constParser) Primitive() bool          { return false }
func (p *constParser) Parse(s string) (interface{}, error) {
	if s == "bad" {
		return nil, errors.New("bad")
	}
	return p.v, nil
}

// HPath: any path in a value of any shape, through the shared lookup and every kind of record.
func HPath() {
	v := value("value", zzrt.Param("depth", 2))
	p := text("path", zzrt.Param("len", 4))
	switch zzrt.Choice("kind", 3) {
	case 0: // JSON document
		m := map[string]interface{}{"a": v}
		r := input.NewJsonRecord(&input.JsonConfig{}, m, 7)
		got, err := r.Get(p)
		if p == "" {
			zzrt.Assert(err != nil, "the empty path gives no error")
			return
		}
		want, kind := walk(m, p, true)
		check(got, err, want, kind)
		zzrt.Assert(r.Position() == 7, "the position is lost")
	case 1: // a column of a CSV record parsed to a structure
		cfg := &input.CsvConfig{Columns: []*input.CsvColumnConfig{{Name: "x"}, {Name: "a"}, {Name: "b"}}, ColumnIndexByName: map[string]int{"x": 0, "a": 1, "b": 2}}
		c := &constParser{v}
		r := input.NewCsvRecord(cfg, []parser.Parser{c, c, c}, []string{"bad", "t"}, 7)
		got, err := r.Get("a." + p)
		want, kind := walk(map[string]interface{}{"a": v}, "a."+p, true)
		check(got, err, want, kind)
		_, err = r.Get("x." + p)
		zzrt.Assert(err != nil, "a field that cannot be parsed gives no error")
		got, err = r.Get("b")
		zzrt.Assert(err == nil && got == nil, "a missing field is not null")
		_, err = r.Get("nope." + p)
		zzrt.Assert(err != nil, "an unknown column gives no error")
	case 2: // the lookup itself
		var steps []string
		s := p + "."
		for len(s) > 0 {
			e := 0
			for s[e] != '.' {
				e++
			}
			steps = append(steps, s[:e])
			s = s[e+1:]
		}
		got, err := record.GetSubValue(v, steps)
		want, kind := walk(v, p, true)
		check(got, err, want, kind)
		got, err = record.GetSubValue(v, nil)
		zzrt.Assert(err == nil && equal(got, v), "no step at all does not give the value itself")
	}
}

// HIndex: list indexes of any length.
func HIndex() {
	l := []interface{}{int64(1), int64(2), int64(3)}
	n := zzrt.Param("min", 0)
	p := zzrt.StringOfN("path", n+zzrt.Choice("length", zzrt.Param("len", 3)), []string{"0123456789-+_ ", "0123456789"}[zzrt.Param("digits", 0)])
	if zzrt.Param("digits", 0) == 1 {
		b, fill := []byte(p), "09"[zzrt.Choice("fill", 2)]
		for i := 2; i < len(b)-2; i++ {
			b[i] = fill
		}
		p = string(b)
		p = []string{"", "-", "+"}[zzrt.Choice("sign", 3)] + p
	}
	r := input.NewJsonRecord(&input.JsonConfig{}, map[string]interface{}{"a": l}, 0)
	got, err := r.Get("a." + p)
	want, kind := walk(l, p, true)
	check(got, err, want, kind)
	got, err = record.GetSubValue(l, []string{p})
	check(got, err, want, kind)
}
