package outs

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// tracked counts the scans of an input that are open, and tells whether they have come to an end.
type tracked struct {
	*source
	over, early int
}

func (t *tracked) IterateAll() (record.Iterator, func() error, error) {
	next, end, err := t.source.IterateAll()
	if err != nil {
		return nil, nil, err
	}
	over, closed := false, false
	t.early++
	return func() (record.Record, error) {
			r, err := next()
			if (r == nil || err != nil) && !over {
				over = true
				if !closed {
					t.early--
					t.over++
				}
			}
			return r, err
		}, func() error {
			if !closed {
				closed = true
				if over {
					t.over--
				} else {
					t.early--
				}
			}
			return end()
		}, nil
}

// HHandles: C29, the scans that a request leaves open.
func HHandles() {
	in, ch := &tracked{source: newSource("in")}, &tracked{source: newSource("ch")}
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	for i := 0; i < n; i++ {
		in.recs = append(in.recs, &rec{shown: map[string]interface{}{"k": zzrt.StringOfN("value", 1, "kl")}, pos: record.Position(i)})
	}
	for i := 0; i < 2; i++ {
		ch.recs = append(ch.recs, &rec{shown: map[string]interface{}{"k": "k"}, pos: record.Position(i)})
	}
	ins := input.List{"in": in, "ch": ch}
	ixs := index.List{"default": noop(ins)}
	ixs["m"] = mapIndex("m", "in", ins, "k")
	ixs["c"] = mapIndex("c", "ch", ins, "k")
	name, rel := "default", "default"
	if zzrt.Choice("indexed", 2) == 1 {
		name, rel = "m", "c"
	}
	object := zzrt.Choice("object", 2) == 1
	var rels map[string]*relationship.RelationshipConfig
	relation := zzrt.Choice("relation", 3)
	if relation > 0 {
		rels = map[string]*relationship.RelationshipConfig{"z": {Input: "ch", IsArray: relation == 1, Match: match(rel)}}
	}
	pc := map[string]*parameter.ParameterConfig{"k": {Property: "k", Index: name, Parser: "string"}}
	params := map[string]string{}
	if object || zzrt.Choice("filtered", 2) == 1 {
		params["k"] = "k"
	}
	var out output.Output
	if object {
		out = makeObject(&output.JsonObjectConfig{Relationships: rels, Parameters: pc}, ins, ixs)
	} else {
		if k := zzrt.Choice("limit", 3); k > 0 {
			params["limit"] = []string{"1", "2"}[k-1]
		}
		if zzrt.Choice("offset", 2) == 1 {
			params["offset"] = "1"
		}
		out = makeArray(&output.JsonArrayConfig{Relationships: rels, Parameters: pc}, ins, ixs)
	}
	switch zzrt.Choice("failure", 4) {
	case 1:
		in.failStep = in.steps + zzrt.Choice("step", 6)
	case 2:
		ch.failStep = ch.steps + zzrt.Choice("step", 8)
	case 3:
		if n > 0 {
			in.recs[n-1].failAll = true
		}
	}
	a := ask(out, params)
	if len(a.errs) > 0 {
		zzrt.Reach("failed")
	} else {
		zzrt.Reach("answered")
	}
	zzrt.Assert(in.over+ch.over == 0, "a request leaves open a scan that has come to its end")
	indexed := in.early+ch.early == 0
	if name != "default" && len(params) > 0 && params["k"] != "" {
		zzrt.Assert(indexed, "a request that only uses indexes leaves a scan open")
		zzrt.Reach("indexed")
	}
	zzrt.Assert(indexed, "a search without an index that stops before its end leaves its input open")
}

var _ = zzkit.ErrInput
