// Package idx: exact-match indexes (C08) and values of any shape (C09).
package idx

import (
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// scalar returns a value of any scalar type.
func scalar(label string) interface{} {
	switch zzrt.Choice(label+" type", zzrt.Param("types", 4)) {
	case 0:
		return zzrt.String(label, zzrt.Param("len", 1))
	case 1:
		return zzrt.Int64(label)
	case 2:
		return nil
	case 3:
		return zzrt.Bool(label)
	}
	return float64(zzrt.Int64(label) >> 12)
}

// same compares without forking. Values of different types differ.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && zzkit.SameBytes([]byte(x), []byte(y))
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return false
}

var props = []string{"p", "q"}

func makeIndex(kind int, in input.Input, ps []string) (index.Index, error) {
	if kind == 0 {
		m, err := index.NewMap(&index.MapConfig{Name: "i", Input: "in", Properties: ps, Logger: zzkit.Logger()}, input.List{"in": in})
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	return index.NewNoop(&index.NoopConfig{Name: "i", Logger: zzkit.Logger()}, input.List{"in": in}), nil
}

// HExact: C08.
func HExact() {
	kind := zzrt.Choice("index", 2)
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	np := zzrt.Param("props", 1)
	in := zzkit.NewInput("in")
	pos := int64(0)
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		for _, p := range props[:np] {
			v[p] = scalar("value")
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: pos})
		if zzrt.Param("widepos", 0) == 1 {
			next := zzrt.Int64("position")
			zzrt.Assume(next > pos)
			pos = next
		} else {
			pos += 5
		}
	}
	ix, err := makeIndex(kind, in, props[:np])
	if err != nil {
		zzrt.Fail("building the index fails: " + err.Error())
	}
	filters := map[string]interface{}{}
	nf := 1 + zzrt.Choice("filters", np)
	for _, p := range props[:nf] {
		filters[p] = scalar("filter")
	}
	it, err := ix.GetRecordPositions(in, filters)
	if err != nil {
		zzrt.Fail("looking up fails: " + err.Error())
	}
	got, err := zzkit.Drain(it, n)
	if err != nil {
		zzrt.Fail("looking up fails: " + err.Error())
	}
	k := 0
	for _, r := range in.Recs {
		want := true
		for _, p := range props[:nf] {
			want = zzrt.And(want, same(r.V[p], filters[p]))
		}
		if k < len(got) && got[k] == r.Pos {
			k++
			zzrt.Assert(want, "a record is returned that does not match all filters")
			zzrt.Reach("found")
		} else {
			zzrt.Assert(!want, "a matching record is not returned at its place")
			zzrt.Reach("not found")
		}
	}
	zzrt.Assert(k == len(got), "a position is returned that is not one of a record, or out of order")
	for i := 0; i < 2; i++ {
		p, err := it()
		zzrt.Assert(p == nil && err == nil, "after the end, the iterator does not keep answering the end")
	}
	zzrt.Assert(in.Opened == in.Closed, "a scan of the input is not closed")
}

// HErrors: a failing input gives an error, not a shortened answer.
func HErrors() {
	kind := zzrt.Choice("index", 2)
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", 3)
	for i := 0; i < n; i++ {
		in.Recs = append(in.Recs, &zzkit.Rec{V: map[string]interface{}{"p": int64(1)}, Pos: int64(i)})
	}
	what := zzrt.Choice("failure", 3)
	switch what {
	case 0:
		in.FailIter = true
	case 1:
		in.FailNext = zzrt.Choice("failing step", n+1)
	case 2:
		if n == 0 {
			zzrt.Assume(false)
		}
		delete(in.Recs[zzrt.Choice("broken record", n)].V, "p")
	}
	ix, err := makeIndex(kind, in, props[:1])
	if err == nil {
		var it record.PositionIterator
		it, err = ix.GetRecordPositions(in, map[string]interface{}{"p": int64(1)})
		if err == nil {
			_, err = zzkit.Drain(it, n)
		}
	}
	zzrt.Assert(err != nil, "a failure of the input is lost: the answer is cut short without an error")
	zzrt.Reach("error")
	if kind == 0 {
		zzrt.Assert(in.Opened == in.Closed, "a scan of the input is not closed after an error")
	}
}

// value returns a value of any shape.
func value(label string, depth int) interface{} {
	n := 6
	if depth > 0 {
		n = 8
	}
	k := 0
	if zzrt.Param("few", 0) == 1 {
		few := []int{0, 5, 6, 7}
		k = few[zzrt.Choice(label+" shape", n-4)]
	} else {
		k = zzrt.Choice(label+" shape", n)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return zzrt.Bool(label)
	case 2:
		return zzrt.Int64(label)
	case 3:
		return float64(1.5)
	case 4:
		return zzrt.String(label, 1)
	case 5:
		return zzrt.StringN(label, 1)
	case 6:
		l := make([]interface{}, zzrt.Choice(label+" length", 3))
		for i := range l {
			l[i] = value(label, depth-1)
		}
		return l
	}
	m := map[string]interface{}{}
	if zzrt.Choice(label+" size", 2) == 1 {
		m["k"] = value(label, depth-1)
	}
	return m
}

func hasElement(v, f interface{}) bool {
	if l, ok := v.([]interface{}); ok {
		r := false
		for _, e := range l {
			r = zzrt.Or(r, hasElement(e, f))
		}
		return r
	}
	return same(v, f)
}

func hasObject(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		return true
	case []interface{}:
		for _, e := range x {
			if hasObject(e) {
				return true
			}
		}
	}
	return false
}

// HShapes: C09, values and filters of any shape. Panics are violations by themselves.
func HShapes() {
	in := zzkit.NewInput("in")
	depth := zzrt.Param("depth", 1)
	n := zzrt.Param("recs", 1)
	for i := 0; i < n; i++ {
		in.Recs = append(in.Recs, &zzkit.Rec{V: map[string]interface{}{"p": value("value", depth)}, Pos: int64(i)})
	}
	kind := zzrt.Choice("index", 3)
	var ix index.Index
	var err error
	if kind == 2 {
		var w *index.Wildcard
		w, err = index.NewWildcard(&index.WildcardConfig{Name: "w", Path: zzrt.Path("index"), Input: "in", Properties: props[:1], IgnoreCase: zzkit.Bool(false), Logger: zzkit.Logger()}, input.List{"in": in})
		ix = w
	} else {
		ix, err = makeIndex(kind, in, props[:1])
	}
	if err != nil {
		zzrt.Reach("index error")
		zzrt.Assert(len(err.Error()) > 0 && !strings.HasSuffix(err.Error(), ": "), "an error without its reason: "+err.Error())
		if kind == 0 {
			obj := false
			for _, r := range in.Recs {
				obj = obj || hasObject(r.V["p"])
			}
			zzrt.Assert(obj, "the map index refuses values without objects: "+err.Error())
		}
		return
	}
	f := value("filter", zzrt.Param("filterdepth", 1))
	it, err := ix.GetRecordPositions(in, map[string]interface{}{"p": f})
	if err != nil {
		zzrt.Reach("filter error")
		return
	}
	got, err := zzkit.Drain(it, n)
	if err != nil {
		zzrt.Reach("filter error")
		return
	}
	zzrt.Reach("answer")
	switch f.(type) {
	case []interface{}, map[string]interface{}:
		return
	}
	if kind == 0 {
		// a list is searchable by each of its elements
		k := 0
		for _, r := range in.Recs {
			in := k < len(got) && got[k] == r.Pos
			if in {
				k++
			}
			zzrt.Assert(in == hasElement(r.V["p"], f), "a list value is not found by its elements (or something else is)")
		}
		zzrt.Assert(k == len(got), "a position is returned twice or out of order")
	}
}
