package outs

import (
	"errors"
	"strconv"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// filter is one parameter of a request with its meaning.
type filter struct {
	name, property string
	text           string
	given          bool
	refused        bool
	matches        func(v interface{}) bool
}

// letters of texts.
func letters() string {
	if zzrt.Param("wide", 0) == 1 {
		return "aA "
	}
	return "ab"
}

func (f *filter) fill(kind string, partial bool) {
	switch kind {
	case "string":
		n := zzrt.Choice(f.name+" len", zzrt.Param("len", 1)+1)
		if partial && n == 0 {
			n = 1
		}
		f.text = zzrt.StringOfN(f.name, n, letters())
		f.matches = func(v interface{}) bool {
			s, ok := v.(string)
			if partial {
				return ok && zzrt.Contains(s, f.text)
			}
			return ok && zzkit.SameBytes([]byte(s), []byte(f.text))
		}
	case "integer":
		f.text = zzrt.StringOf(f.name, zzrt.Param("digits", 1), "12-x "[:4+zzrt.Param("wide", 0)])
		n, ok := number(f.text)
		f.refused = !ok
		f.matches = func(v interface{}) bool {
			i, ok := v.(int64)
			return ok && i == n
		}
	case "boolean":
		f.text = zzrt.StringOf(f.name, 1, "tfx")
		f.refused = f.text != "t" && f.text != "f"
		f.matches = func(v interface{}) bool {
			b, ok := v.(bool)
			return ok && b == (f.text == "t")
		}
	}
}

type setup struct{ name, property, index, kind string }

// setups of parameters and of the indexes that serve them.
var setups = [][]setup{
	{{"a", "a", "default", "string"}},
	{{"a", "a", "m", "string"}, {"b", "b", "m", "integer"}},
	{{"a", "a", "default", "string"}, {"b", "b", "m", "integer"}},
	{{"a", "a", "m", "string"}, {"b", "b", "m2", "integer"}, {"c", "c", "default", "boolean"}},
	{{"c", "c", "m2", "boolean"}, {"c2", "c", "default", "boolean"}},
	{{"a", "a", "w", "string"}, {"b", "b", "m", "integer"}},
	{{"a", "a", "w", "string"}, {"d", "d", "w", "string"}},
}

func makeRecords(n int) []*rec {
	var recs []*rec
	for i := 0; i < n; i++ {
		h := map[string]interface{}{"a": nil, "b": nil, "c": nil, "d": "ab"}
		if zzrt.Param("setup", -1) >= 5 || zzrt.Choice("a set", 2) == 1 { // (a wildcard index refuses null)
			h["a"] = zzrt.StringOf("a", zzrt.Param("len", 1), letters())
			h["b"] = zzrt.Int64("b")
		}
		if zzrt.Param("bools", 0) == 1 && zzrt.Choice("c set", 2) == 1 {
			h["c"] = zzrt.Bool("c")
		}
		recs = append(recs, &rec{shown: map[string]interface{}{"i": int64(i)}, hidden: h, pos: record.Position(i * 7)})
	}
	return recs
}

func makeIndexes(in *source, ins input.List) index.List {
	ixs := index.List{"default": noop(ins)}
	ixs["m"] = mapIndex("m", "in", ins, "a", "b")
	ixs["m2"] = mapIndex("m2", "in", ins, "b", "c")
	if zzrt.Param("setup", -1) >= 5 {
		w, err := index.NewWildcard(&index.WildcardConfig{Name: "w", Path: zzrt.Path("w.idx"), Input: "in", Properties: []string{"a", "d"}, Logger: zzkit.Logger(), IgnoreCase: zzkit.Bool(false)}, ins)
		if err != nil {
			zzrt.Fail("building the wildcard index fails: " + err.Error())
		}
		ixs["w"] = w
	}
	return ixs
}

// HFilter: C23.
func HFilter() {
	k := zzrt.Param("setup", -1)
	if k < 0 {
		k = zzrt.Choice("setup", 5)
	}
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	recs := makeRecords(n)
	in := newSource("in", recs...)
	ins := input.List{"in": in}
	ixs := makeIndexes(in, ins)
	object := zzrt.Choice("object", 2) == 1

	conf := map[string]*parameter.ParameterConfig{}
	params := map[string]string{}
	var given []*filter
	refused, absent := false, false
	for _, s := range setups[k] {
		conf[s.name] = &parameter.ParameterConfig{Property: s.property, Index: s.index, Parser: s.kind}
		if zzrt.Choice("given", 2) == 0 {
			if object && s.kind == "string" && s.index != "w" {
				// the object can be refused, but no other record can be given
				given = append(given, &filter{property: s.property, matches: func(v interface{}) bool { return v == "" }})
			}
			absent = absent || object
			continue
		}
		f := &filter{name: s.name, property: s.property}
		f.fill(s.kind, s.index == "w")
		params[s.name] = f.text
		given = append(given, f)
		refused = refused || f.refused
	}
	var out output.Output
	if object {
		out = makeObject(&output.JsonObjectConfig{Parameters: conf}, ins, ixs)
	} else {
		out = makeArray(&output.JsonArrayConfig{Parameters: conf}, ins, ixs)
		if zzrt.Choice("other parameter", 2) == 1 {
			params["other"] = "x"
		}
	}
	zzrt.MapOrder(true)
	a := ask(out, params)
	zzrt.MapOrder(false)
	if refused {
		zzrt.Assert(len(a.errs) == 1, "a value that its parser refuses is accepted")
		zzrt.Assert(!errors.Is(a.errs[0], record.RecordNotFoundError), "a value that its parser refuses is reported as a record that does not exist")
		zzrt.Reach("refused")
		return
	}
	if absent && len(a.errs) == 1 {
		zzrt.Reach("refused")
		return
	}
	doc, rows := "", 0
	for i, r := range recs {
		match := true
		for _, f := range given {
			match = zzrt.And(match, f.matches(r.hidden[f.property]))
		}
		if match {
			if object && rows > 0 {
				break
			}
			if rows > 0 {
				doc += ","
			}
			doc += `{"i":` + strconv.Itoa(i) + "}"
			rows++
		}
	}
	if object && rows == 0 {
		zzrt.Assert(!absent, "an object is answered although one of its parameters is missing and no record has an empty text")
		zzrt.Assert(len(a.errs) == 1 && errors.Is(a.errs[0], record.RecordNotFoundError), "a record that does not exist is not reported as not found")
		zzrt.Reach("not found")
		return
	}
	if object {
		a.mustBe(doc, "the response is not the first matching record")
		zzrt.Reach("object")
		return
	}
	a.mustBe("["+doc+"]", "the response is not the list of the matching records")
	zzrt.Reach("list")
}

// HSame: C23, for two parameters on the same property of the same index.
func HSame() {
	recs := makeRecords(zzrt.Choice("records", zzrt.Param("recs", 2)+1))
	in := newSource("in", recs...)
	ins := input.List{"in": in}
	ixs := makeIndexes(in, ins)
	conf := map[string]*parameter.ParameterConfig{}
	params := map[string]string{}
	var given []*filter
	for _, name := range []string{"x", "y"} {
		conf[name] = &parameter.ParameterConfig{Property: "a", Index: "m", Parser: "string"}
		f := &filter{name: name, property: "a"}
		f.fill("string", false)
		params[name] = f.text
		given = append(given, f)
	}
	out := makeArray(&output.JsonArrayConfig{Parameters: conf}, ins, ixs)
	a := ask(out, params)
	zzrt.Reach("list")
	doc, rows := "[", 0
	for i, r := range recs {
		if zzrt.And(given[0].matches(r.hidden["a"]), given[1].matches(r.hidden["a"])) {
			if rows > 0 {
				doc += ","
			}
			doc += `{"i":` + strconv.Itoa(i) + "}"
			rows++
		}
	}
	a.mustBe(doc+"]", "the response is not the list of the records that match both parameters")
}
