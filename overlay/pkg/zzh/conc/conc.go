// Package conc: C28, requests that run at the same time.
package conc

import (
	"io"
	"os"
	"sync"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// result of a request: the values it gave, in order.
type result []interface{}

// together runs the requests at the same time.
func together(level int, requests ...func() result) []result {
	got := make([]result, len(requests))
	var wg sync.WaitGroup
	zzrt.Races(true)
	zzrt.Interleave(level, zzrt.Param("switches", 1))
	for i := range requests {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			got[i] = requests[i]()
		}(i)
	}
	wg.Wait()
	zzrt.Interleave(0, 0)
	zzrt.Races(false)
	return got
}

// same compares two values without forking on their texts.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && zzkit.SameBytes([]byte(x), []byte(y))
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case error:
		_, ok := b.(error)
		return ok
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = zzrt.And(r, same(x[i], y[i]))
		}
		return r
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, has := y[k]
			if !has {
				return false
			}
			r = zzrt.And(r, same(v, w))
		}
		return r
	}
	return false
}

func mustBeSame(got, want []result, what string) {
	for i := range want {
		zzrt.Assert(len(got[i]) == len(want[i]), what+" of a request is not the one it gets alone")
		for k := range want[i] {
			zzrt.Assert(same(got[i][k], want[i][k]), what+" of a request is not the one it gets alone")
		}
	}
}

func write(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
}

func parsers() parser.List {
	l := parser.List{
		"integer": parser.NewInteger(&parser.IntegerConfig{Name: "integer"}),
		"boolean": parser.NewBoolean(&parser.BooleanConfig{Name: "boolean", TrueValues: []string{"t"}, FalseValues: []string{"f"}}),
		"float":   parser.NewFloat(&parser.FloatConfig{Name: "float", DecimalSeparator: "."}),
		"json":    parser.NewJson(&parser.JsonConfig{Name: "json"}),
	}
	for name, charset := range map[string]string{"string": "", "latin": "ISO-8859-1", "utf16": "UTF-16"} {
		s, err := parser.NewString(&parser.StringConfig{Name: name, ConvertFromCharset: charset})
		if err != nil {
			zzrt.Fail("no parser: " + err.Error())
		}
		l[name] = s
	}
	d := ","
	l["split"] = parser.NewSplit(&parser.SplitConfig{Name: "split", Delimiter: &d, Parser: "latin"}, l)
	return l
}

// HParse: two texts go through one parser.
func HParse() {
	names := []string{"latin", "split", "json", "integer", "boolean", "float", "string", "utf16"}
	which := zzrt.Param("parser", -1)
	if which < 0 {
		which = zzrt.Choice("parser", len(names))
	}
	name := names[which]
	text := func(label string) string {
		switch name {
		case "integer", "boolean", "float":
			return zzrt.StringOfN(label, 1, "1tfx")
		case "json":
			return []string{"[1,{}]", "{", `"a"`}[zzrt.Choice(label, 3)]
		}
		alphabet := "a,\xe9"
		if name == "utf16" {
			alphabet = "\xfe\xffa"
		}
		return zzrt.StringOfN(label, zzrt.Param("len", 2), alphabet)
	}
	texts := []string{text("first"), text("second")}
	requests := func(l parser.List) []func() result {
		var all []func() result
		for i := range texts {
			t := texts[i]
			all = append(all, func() result {
				v, err := l[name].Parse(t)
				if err != nil {
					return result{err}
				}
				return result{v}
			})
		}
		return all
	}
	got := together(zzrt.Param("level", 1), requests(parsers())...)
	var want []result
	for _, r := range requests(parsers()) {
		want = append(want, r())
	}
	mustBeSame(got, want, "the value")
	zzrt.Reach("parsed")
}

const kinds = 3

// makeInput opens an input with two records, the values of which hold the given texts.
func makeInput(kind int, a, b string) input.Input {
	path := zzrt.Path("data")
	logger, die := zzkit.Logger(), zzkit.Bool(false)
	switch kind {
	case 0:
		write(path, "k0,"+a+"\nk1,"+b+"\n")
		in, err := input.NewCsv(&input.CsvConfig{
			Name: "in", Path: path, Delimiter: ",", Logger: logger, DieOnInputChange: die,
			Columns:           []*input.CsvColumnConfig{{Name: "k", Parser: "string"}, {Name: "v", Parser: "latin"}},
			ColumnIndexByName: map[string]int{"k": 0, "v": 1},
		}, parsers())
		if err != nil {
			zzrt.Fail("opening the input fails: " + err.Error())
		}
		zzrt.AtEnd(func() { in.Close() })
		return in
	case 1:
		write(path, `{"k":"k0","v":"`+a+"\"}\n"+`{"k":"k1","v":"`+b+"\"}\n")
		in, err := input.NewJson(&input.JsonConfig{Name: "in", Path: path, Logger: logger, DieOnInputChange: die})
		if err != nil {
			zzrt.Fail("opening the input fails: " + err.Error())
		}
		zzrt.AtEnd(func() { in.Close() })
		return in
	}
	write(path, "<r><i><k>k0</k><v>"+a+"</v></i>\n<i><k>k1</k><v>"+b+"</v></i></r>")
	list := func() *input.XmlPropertyConfig {
		return &input.XmlPropertyConfig{Name: "l", Type: input.XmlInputPropertyTypeArray, XPath: "v", Items: &input.XmlPropertyConfig{
			Name: "e", Type: input.XmlInputPropertyTypePrimitive, Parser: "string", XPath: "string(.)",
		}}
	}
	conf := &input.XmlConfig{Name: "in", Path: path, Logger: logger, DieOnInputChange: die, RecordXPath: "//i"}
	value := &input.XmlPropertyConfig{Name: "v", Type: input.XmlInputPropertyTypePrimitive, Parser: "string", XPath: "string(v)"}
	switch zzrt.Param("xpath", 0) {
	case 1:
		value.XPath, value.Parser = "v = 'a'", "boolean"
	case 2:
		value.XPath, value.Parser = "count(v) + 1", "integer"
	case 3:
		value.XPath, value.Parser = "v = 'a' and k = 'k0'", "boolean"
	case 4:
		value.XPath = "v"
	case 5:
		value.XPath = "concat(v, k)"
	}
	conf.Properties = []*input.XmlPropertyConfig{
		{Name: "k", Type: input.XmlInputPropertyTypePrimitive, Parser: "string", XPath: "string(k)"},
		value,
		list(),
	}
	all := parsers()
	confs := map[string]parser.Config{"string": &parser.StringConfig{Name: "string"}, "boolean": &parser.BooleanConfig{Name: "boolean"}, "integer": &parser.IntegerConfig{Name: "integer"}}
	if err := conf.Validate(confs, logger); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	in, err := input.NewXml(conf, all)
	if err != nil {
		zzrt.Fail("opening the input fails: " + err.Error())
	}
	zzrt.AtEnd(func() { in.Close() })
	return in
}

func positions(in input.Input) []record.Position {
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	defer end()
	var all []record.Position
	for {
		rec, err := next()
		if err != nil {
			zzrt.Fail("scanning fails: " + err.Error())
		}
		if rec == nil {
			return all
		}
		all = append(all, rec.Position())
	}
}

// show gives the position and the values of a record.
func show(rec record.Record, how int) result {
	r := result{int64(rec.Position())}
	if how == 1 {
		v, err := rec.Get("v")
		if err != nil {
			return append(r, err)
		}
		return append(r, v)
	}
	v, err := rec.All()
	if err != nil {
		return append(r, err)
	}
	return append(r, v)
}

func fetch(in input.Input, p record.Position, how int) func() result {
	return func() result {
		rec, err := in.Get(p)
		if err != nil {
			return result{err}
		}
		return show(rec, how)
	}
}

func scan(in input.Input, how int) func() result {
	return func() result {
		next, end, err := in.IterateAll()
		if err != nil {
			return result{err}
		}
		var r result
		for {
			rec, err := next()
			if err != nil {
				r = append(r, err)
			}
			if rec == nil || err != nil {
				end()
				return r
			}
			r = append(r, show(rec, how)...)
		}
	}
}

func value(label string) string { return zzrt.StringOfN(label, 1, "ab") }

// HInput: records of one input are fetched and scanned at the same time.
func HInput() {
	kind := zzrt.Param("kind", -1)
	if kind < 0 {
		kind = zzrt.Choice("kind", kinds)
	}
	a, b := value("first"), value("second")
	alone := makeInput(kind, a, b)
	pos := positions(alone)
	if len(pos) != 2 {
		zzrt.Fail("the records are not found")
	}
	n := zzrt.Param("requests", 2)
	what, how := make([]int, n), make([]int, n)
	for i := range what {
		what[i] = i % 2
		how[i] = zzrt.Param("how", -1)
		if how[i] < 0 {
			how[i] = zzrt.Choice("how", 2)
		}
		if i == 0 && zzrt.Param("scan", 0) == 1 {
			what[i] = 2
		}
	}
	requests := func(in input.Input) []func() result {
		var all []func() result
		for i, w := range what {
			if w == 2 {
				all = append(all, scan(in, how[i]))
			} else {
				all = append(all, fetch(in, pos[w], how[i]))
			}
		}
		return all
	}
	in := makeInput(kind, a, b)
	got := together(1, requests(in)...)
	var want []result
	for _, r := range requests(alone) {
		want = append(want, r())
	}
	mustBeSame(got, want, "the record")
	in.Close()
	alone.Close()
	zzrt.Reach("fetched")
}

// HIndex: searches in one index run at the same time.
func HIndex() {
	kind := zzrt.Choice("kind", 3)
	var values []string
	for i := 0; i < 2; i++ {
		values = append(values, value("value"))
	}
	searched := []string{value("search"), value("search")}
	k := 0
	makeIndex := func() (index.Index, input.Input) {
		k++
		in := zzkit.NewInput("in")
		for i, v := range values {
			in.Recs = append(in.Recs, &zzkit.Rec{V: map[string]interface{}{"p": v}, Pos: record.Position(i)})
		}
		l := input.List{"in": in}
		var x index.Index
		var err error
		switch kind {
		case 0:
			x, err = index.NewMap(&index.MapConfig{Name: "i", Input: "in", Properties: []string{"p"}, Logger: zzkit.Logger()}, l)
		case 1:
			x, err = index.NewWildcard(&index.WildcardConfig{Name: "i", Path: zzrt.Path("index" + string(rune('0'+k))), Input: "in", Properties: []string{"p"}, IgnoreCase: zzkit.Bool(true), Logger: zzkit.Logger()}, l)
		case 2:
			x = index.NewNoop(&index.NoopConfig{Name: "i", Logger: zzkit.Logger()}, l)
		}
		if err != nil {
			zzrt.Fail("building the index fails: " + err.Error())
		}
		zzrt.AtEnd(func() { x.Close() })
		if kind == 2 {
			return x, &shared{Input: in} // (the input of the harness is not made to be shared)
		}
		return x, in
	}
	requests := func(x index.Index, in input.Input) []func() result {
		var all []func() result
		for _, s := range searched {
			s := s
			all = append(all, func() result {
				it, err := x.GetRecordPositions(in, map[string]interface{}{"p": s})
				if err != nil {
					return result{err}
				}
				var r result
				for {
					p, err := it()
					if err != nil {
						return append(r, err)
					}
					if p == nil || len(r) > len(values) {
						return r
					}
					r = append(r, int64(*p))
				}
			})
		}
		return all
	}
	got := together(zzrt.Param("level", 1), requests(makeIndex())...)
	var want []result
	for _, r := range requests(makeIndex()) {
		want = append(want, r())
	}
	mustBeSame(got, want, "the answer")
	zzrt.Reach("searched")
}

// shared makes an input in memory safe for concurrent scans.
type shared struct {
	*zzkit.Input
}

func (s *shared) IterateAll() (record.Iterator, func() error, error) {
	i := 0
	return func() (record.Record, error) {
		if i >= len(s.Recs) {
			return nil, nil
		}
		i++
		return s.Recs[i-1], nil
	}, func() error { return nil }, nil
}

// HOutput: requests to one output run at the same time.
func HOutput() {
	kind := zzrt.Param("kind", 0)
	a, b := "a", value("second")
	object := zzrt.Param("object", 0) == 1
	indexed := zzrt.Choice("indexed", 2) == 1
	related := zzrt.Param("related", 0) == 1 && zzrt.Choice("related", 2) == 1
	var params []map[string]string
	for i := 0; i < 2; i++ {
		p := map[string]string{}
		if object || zzrt.Choice("filtered", 2) == 1 {
			p["v"] = "a"
			if i > 0 {
				p["v"] = zzrt.StringOfN("search", 1, "bc")
			}
		} else if i > 0 {
			p["offset"] = "1"
		}
		params = append(params, p)
	}
	requests := func() []func() result {
		in := makeInput(kind, a, b)
		ins := input.List{"in": in}
		ixs := index.List{"default": index.NewNoop(&index.NoopConfig{Name: "default", Logger: zzkit.Logger()}, ins)}
		m, err := index.NewMap(&index.MapConfig{Name: "m", Input: "in", Properties: []string{"v"}, Logger: zzkit.Logger()}, ins)
		if err != nil {
			zzrt.Fail("building an index fails: " + err.Error())
		}
		ixs["m"] = m
		name := "default"
		if indexed {
			name = "m"
		}
		pc := map[string]*parameter.ParameterConfig{"v": {Property: "v", Index: name, Parser: "string"}}
		var rels map[string]*relationship.RelationshipConfig
		if related {
			rels = map[string]*relationship.RelationshipConfig{"z": {Input: "in", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "v", ChildProperty: "v", ChildIndex: name}}}}
		}
		var out output.Output
		if object {
			out, err = output.NewJsonObject(&output.JsonObjectConfig{Name: "out", Input: "in", Parameters: pc, Relationships: rels, Logger: zzkit.Logger()}, ins, ixs["default"], ixs, parsers())
		} else {
			out, err = output.NewJsonArray(&output.JsonArrayConfig{
				Name: "out", Input: "in", Parameters: pc, Relationships: rels, Logger: zzkit.Logger(),
				Limit: output.JsonArrayLimitConfig{Default: 10, Max: 10, Parameter: "limit"}, Offset: output.JsonArrayOffsetConfig{Parameter: "offset"},
			}, ins, ixs["default"], ixs, parsers())
		}
		if err != nil {
			zzrt.Fail("making the output fails: " + err.Error())
		}
		var all []func() result
		for _, p := range params {
			p := p
			all = append(all, func() result {
				w := &writer{}
				var failure error
				err := out.Handle(p, nil, func(err error) error { failure = err; return nil }, func() io.Writer { return w })
				if err != nil {
					return result{err}
				}
				if failure != nil {
					return result{failure, string(w.b)}
				}
				return result{string(w.b)}
			})
		}
		return all
	}
	got := together(zzrt.Param("level", 1), requests()...)
	var want []result
	for _, r := range requests() {
		want = append(want, r())
	}
	mustBeSame(got, want, "the response")
	zzrt.Reach("answered")
	if len(got[0]) == 2 || len(got[1]) == 2 {
		zzrt.Reach("not found")
	}
}

type writer struct{ b []byte }

func (w *writer) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}
