package outs

import (
	"strconv"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// row is a record of one of the inputs: its number, its key (or null) and what it is sorted by.
type row struct {
	i    int
	null bool
	k    string
	v, w int64
}

func makeRows(label string, n int, sorted bool) []*row {
	var rows []*row
	for i := 0; i < n; i++ {
		r := &row{i: i}
		if zzrt.Param("nulls", 1) == 1 && zzrt.Choice(label+" null", 2) == 1 {
			r.null = true
		} else {
			r.k = zzrt.StringOfN(label, 1, "ab")
		}
		if sorted {
			r.v, r.w = zzrt.Int64(label+" v"), zzrt.Int64(label+" w")
			for _, o := range rows {
				zzrt.Assume(zzrt.Or(o.v != r.v, o.w != r.w))
			}
		}
		rows = append(rows, r)
	}
	return rows
}

func rowsSource(name string, rows []*row) *source {
	s := newSource(name)
	for _, r := range rows {
		m := map[string]interface{}{"i": int64(r.i), "k": nil}
		if !r.null {
			m["k"] = r.k
		}
		s.recs = append(s.recs, &rec{shown: m, hidden: map[string]interface{}{"v": r.v, "w": r.w}, pos: record.Position(r.i * 3)})
	}
	return s
}

func (r *row) matches(o *row) bool {
	if r.null || o.null {
		return r.null && o.null
	}
	return zzkit.SameBytes([]byte(r.k), []byte(o.k))
}

func related(of *row, rows []*row) []*row {
	var l []*row
	for _, r := range rows {
		if of.matches(r) {
			l = append(l, r)
		}
	}
	return l
}

func (r *row) before(o *row, desc, second bool) bool {
	if desc {
		r, o = o, r
	}
	if second && r.v == o.v {
		return r.w < o.w
	}
	return r.v < o.v
}

func order(l []*row, desc, second bool) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j].before(l[j-1], desc, second); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func cut(l []*row, limit uint) []*row {
	if limit > 0 && uint(len(l)) > limit {
		return l[:limit]
	}
	return l
}

func (r *row) key() string {
	if r.null {
		return "null"
	}
	return `"` + r.k + `"`
}

func (r *row) text() string {
	return `{"i":` + strconv.Itoa(r.i) + `,"k":` + r.key() + `}`
}

func list(l []*row, text func(*row) string) string {
	s := "["
	for i, r := range l {
		if i > 0 {
			s += ","
		}
		s += text(r)
	}
	return s + "]"
}

func one(l []*row, text func(*row) string) string {
	if len(l) == 0 {
		return "null"
	}
	return text(l[0])
}

func match(index string) []*relationship.RelationshipMatchConfig {
	return []*relationship.RelationshipMatchConfig{{ParentProperty: "k", ChildProperty: "k", ChildIndex: index}}
}

func sorting(desc bool, props ...string) []*record.SortConfig {
	var l []*record.SortConfig
	for _, p := range props {
		l = append(l, &record.SortConfig{Property: p, Ascending: zzkit.Bool(!desc), Logger: zzkit.Logger()})
	}
	return l
}

// HRelations: C24.
func HRelations() {
	kind := zzrt.Param("kind", 0)
	parents := makeRows("parent", zzrt.Choice("parents", zzrt.Param("parents", 1)+1), false)
	children := makeRows("child", zzrt.Choice("children", zzrt.Param("children", 2)+1), kind == 1 || kind == 5)
	ins := input.List{"in": rowsSource("in", parents), "ch": rowsSource("ch", children)}
	ixs := index.List{"default": noop(ins)}
	childIndex := "default"
	if zzrt.Choice("indexed", 2) == 1 {
		ixs["m"] = mapIndex("m", "ch", ins, "k", "i")
		childIndex = "m"
	}
	rels := map[string]*relationship.RelationshipConfig{}
	var text func(p *row) string
	head := func(p *row) string { return `{"i":` + strconv.Itoa(p.i) }
	switch kind {
	case 0: // a list cut to a limit and a single object
		limit := zzrt.Uint64("limit")
		rels["c"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Limit: uint(limit), Match: match(childIndex)}
		rels["z"] = &relationship.RelationshipConfig{Input: "ch", Limit: uint(zzrt.Choice("ignored limit", 3)), Match: match("default")}
		text = func(p *row) string {
			l := related(p, children)
			return `{"c":` + list(cut(l, uint(limit)), (*row).text) + `,"i":` + strconv.Itoa(p.i) + `,"k":` + p.key() + `,"z":` + one(l, (*row).text) + `}`
		}
	case 1: // a sorted list cut to a limit
		limit, desc, second := zzrt.Uint64("limit"), zzrt.Choice("descending", 2) == 1, zzrt.Choice("second property", 2) == 1
		props := []string{"v"}
		if second {
			props = []string{"v", "w"}
		} else {
			for i, a := range children {
				for _, b := range children[:i] {
					zzrt.Assume(a.v != b.v)
				}
			}
		}
		rels["x"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Limit: uint(limit), Match: match(childIndex), Sort: sorting(desc, props...)}
		rels["s"] = &relationship.RelationshipConfig{Input: "ch", Match: match("default"), Sort: sorting(!desc, props...)}
		text = func(p *row) string {
			l, o := related(p, children), related(p, children)
			order(l, desc, second)
			order(o, !desc, second)
			return head(p) + `,"k":` + p.key() + `,"s":` + one(o, (*row).text) + `,"x":` + list(cut(l, uint(limit)), (*row).text) + `}`
		}
	case 5: // nested sorted relationships
		for i, a := range children {
			for _, b := range children[:i] {
				zzrt.Assume(a.v != b.v)
			}
		}
		limit := zzrt.Choice("limit", 3)
		rels["x"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Match: match(childIndex), Sort: sorting(true, "v"), Relationships: map[string]*relationship.RelationshipConfig{
			"s": {Input: "ch", Match: match(childIndex), Sort: sorting(true, "v")},
			"y": {Input: "ch", IsArray: true, Limit: uint(limit), Match: match("default"), Sort: sorting(false, "v")},
		}}
		inner := func(c *row) string {
			l, o := related(c, children), related(c, children)
			order(l, false, false)
			order(o, true, false)
			return head(c) + `,"k":` + c.key() + `,"s":` + one(o, (*row).text) + `,"y":` + list(cut(l, uint(limit)), (*row).text) + `}`
		}
		text = func(p *row) string {
			l := related(p, children)
			order(l, true, false)
			return head(p) + `,"k":` + p.key() + `,"x":` + list(l, inner) + `}`
		}
	case 2: // relationships that take the place of the property they all depend on
		rels["k"] = &relationship.RelationshipConfig{Input: "ch", Match: match(childIndex)}
		rels["l"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Match: match(childIndex)}
		text = func(p *row) string {
			l := related(p, children)
			return head(p) + `,"k":` + one(l, (*row).text) + `,"l":` + list(l, (*row).text) + `}`
		}
	case 3: // nested relationships, back to the parents
		rels["x"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Match: match(childIndex), Relationships: map[string]*relationship.RelationshipConfig{
			"p": {Input: "in", Match: match("default")},
			"y": {Input: "ch", IsArray: true, Limit: 1, Match: match(childIndex)},
		}}
		inner := func(c *row) string {
			return head(c) + `,"k":` + c.key() + `,"p":` + one(related(c, parents), (*row).text) + `,"y":` + list(cut(related(c, children), 1), (*row).text) + `}`
		}
		text = func(p *row) string {
			return head(p) + `,"k":` + p.key() + `,"x":` + list(related(p, children), inner) + `}`
		}
	case 4: // two matched properties, in the same index or in two
		second := "default"
		if zzrt.Choice("same index", 2) == 1 {
			second = childIndex
		}
		m := match(childIndex)
		m = append(m, &relationship.RelationshipMatchConfig{ParentProperty: "i", ChildProperty: "i", ChildIndex: second})
		rels["x"] = &relationship.RelationshipConfig{Input: "ch", IsArray: true, Match: m}
		text = func(p *row) string {
			var l []*row
			for _, r := range related(p, children) {
				if r.i == p.i {
					l = append(l, r)
				}
			}
			return head(p) + `,"k":` + p.key() + `,"x":` + list(l, (*row).text) + `}`
		}
	}
	var out output.Output
	object := zzrt.Choice("object", 2) == 1
	params := map[string]string{}
	if object {
		out = makeObject(&output.JsonObjectConfig{Relationships: rels, Parameters: map[string]*parameter.ParameterConfig{"i": {Property: "i", Index: "default", Parser: "integer"}}}, ins, ixs)
		params["i"] = "0"
	} else {
		out = makeArray(&output.JsonArrayConfig{Relationships: rels}, ins, ixs)
	}
	for round := 0; round < zzrt.Param("rounds", 1); round++ {
		zzrt.MapOrder(kind == 2 || kind == 4)
		a := ask(out, params)
		zzrt.MapOrder(false)
		if object && len(parents) == 0 {
			zzrt.Assert(len(a.errs) == 1, "a record that does not exist is returned")
			zzrt.Reach("not found")
			return
		}
		what := "the response does not hold exactly the related records"
		if object {
			a.mustBe(text(parents[0]), what)
			zzrt.Reach("object")
		} else {
			a.mustBe(list(parents, text), what)
			zzrt.Reach("list")
		}
	}
}
