package outs

import (
	"io"

	"encoding/json"
	"math"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// values that a record can hold, with their JSON form ("" if there is none).
func anyValue(label string) (interface{}, string) {
	switch zzrt.Choice(label, zzrt.Param("values", 13)) {
	case 0:
		return math.NaN(), ""
	case 1:
		return math.Inf(1), ""
	case 2:
		return math.Inf(-1), ""
	case 3:
		return 1.5, "1.5"
	case 4:
		return nil, "null"
	case 5:
		return []interface{}{int64(1), math.NaN()}, ""
	case 6:
		return map[string]interface{}{"x": []interface{}{"y", math.Inf(1)}}, ""
	case 7:
		return map[string]interface{}{"x": []interface{}{"y", nil}}, `{"x":["y",null]}`
	case 8:
		return math.MaxFloat64, "1.7976931348623157e+308"
	case 9:
		return "a\"\\\n\x00", `"a\"\\\n\u0000"`
	case 10:
		return []interface{}{}, "[]"
	case 11:
		return true, "true"
	}
	return int64(math.MinInt64), "-9223372036854775808"
}

// HValues: C25, for values with and without a JSON form.
func HValues() {
	n := 1 + zzrt.Choice("records", zzrt.Param("recs", 2))
	in, ch := newSource("in"), newSource("ch")
	doc, valid := "[", true
	object := zzrt.Choice("object", 2) == 1
	var child interface{}
	childText := ""
	if zzrt.Choice("child", 2) == 1 {
		child, childText = anyValue("child value")
	} else {
		child, childText = "c", `"c"`
	}
	ch.recs = append(ch.recs, &rec{shown: map[string]interface{}{"k": "k", "v": child}})
	for i := 0; i < n; i++ {
		v, text := anyValue("value")
		if i == 0 || !object {
			valid = valid && text != "" && childText != ""
		}
		if i > 0 {
			doc += ","
		}
		row := `{"k":"k","v":` + text + `,"z":{"k":"k","v":` + childText + `}}`
		if object && i == 0 {
			doc = row
		} else if !object {
			doc += row
		}
		in.recs = append(in.recs, &rec{shown: map[string]interface{}{"k": "k", "v": v}, pos: record.Position(i)})
	}
	if !object {
		doc += "]"
	} else if len(doc) > 0 && doc[len(doc)-1] == ',' {
		doc = doc[:len(doc)-1]
	}
	ins := input.List{"in": in, "ch": ch}
	ixs := index.List{"default": noop(ins)}
	rels := map[string]*relationship.RelationshipConfig{"z": {Input: "ch", Match: match("default")}}
	a := askAny(object, rels, ins, ixs)
	if !valid {
		zzrt.Assert(len(a.errs) == 1, "a document that cannot be made is not reported as an error")
		zzrt.Reach("no form")
		return
	}
	a.mustBe(doc, "the document is not complete")
	zzrt.Reach("form")
}

func askAny(object bool, rels map[string]*relationship.RelationshipConfig, ins input.List, ixs index.List) *answer {
	if object {
		return ask(makeObject(&output.JsonObjectConfig{Relationships: rels, Parameters: map[string]*parameter.ParameterConfig{"k": {Property: "k", Index: "default", Parser: "string"}}}, ins, ixs), map[string]string{"k": "k"})
	}
	return ask(makeArray(&output.JsonArrayConfig{Relationships: rels}, ins, ixs), map[string]string{})
}

// HFailures: C25, for failures at any step of the inputs.
func HFailures() {
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	in, ch := newSource("in"), newSource("ch")
	for i := 0; i < n; i++ {
		in.recs = append(in.recs, &rec{shown: map[string]interface{}{"k": "k"}, pos: record.Position(i)})
	}
	for i := 0; i < 2; i++ {
		ch.recs = append(ch.recs, &rec{shown: map[string]interface{}{"k": "k"}, pos: record.Position(i)})
	}
	ins := input.List{"in": in, "ch": ch}
	ixs := index.List{"default": noop(ins)}
	object := zzrt.Choice("object", 2) == 1
	rels := map[string]*relationship.RelationshipConfig{"z": {Input: "ch", IsArray: true, Match: match("default")}}
	missing := false
	what := zzrt.Choice("failure", 6)
	step := -1
	if what < 2 {
		in.failErr = []error{zzkit.ErrInput, io.EOF, record.RecordNotFoundError, io.ErrUnexpectedEOF}[zzrt.Choice("error", 4)]
		ch.failErr = in.failErr
	}
	switch what {
	case 0:
		in.failStep = zzrt.Choice("step", 6)
		step = in.failStep
	case 1:
		ch.failStep = zzrt.Choice("step", 12)
		step = ch.failStep
	case 2:
		if n > 0 {
			in.recs[n-1].failAll = true
		}
	case 3:
		ch.recs[1].failAll = true
	case 4: // the property to match does not exist
		rels["z"].Match[0].ParentProperty = "other"
		missing = n > 0
	}
	a := askAny(object, rels, ins, ixs)
	failed := missing
	switch what {
	case 0:
		failed = step < in.steps
	case 1:
		failed = step < ch.steps
	case 2:
		failed = n > 0 && (!object || n == 1)
	case 3:
		failed = n > 0
	}
	if object && n == 0 && !failed {
		zzrt.Assert(len(a.errs) == 1, "a record that does not exist is returned")
		return
	}
	if failed {
		zzrt.Assert(len(a.errs) == 1, "a failure of an input is not reported")
		zzrt.Reach("failed")
		return
	}
	z := `[{"k":"k"},{"k":"k"}]`
	row := `{"k":"k","z":` + z + `}`
	doc := row
	if !object {
		doc = "["
		for i := 0; i < n; i++ {
			if i > 0 {
				doc += ","
			}
			doc += row
		}
		doc += "]"
	}
	a.mustBe(doc, "the document is not complete")
	zzrt.Assert(json.Valid(a.body), "the document is not valid JSON")
	zzrt.Reach("answered")
}

var _ = zzkit.ErrInput
