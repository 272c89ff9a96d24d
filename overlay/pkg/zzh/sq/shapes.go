package sq

import (
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// shape returns a value of any shape.
func shape(label string, depth int) interface{} {
	n := 6
	if depth > 0 {
		n = 8
	}
	switch zzrt.Choice(label+" shape", n) {
	case 0:
		return nil
	case 1:
		return zzrt.Bool(label)
	case 2:
		return zzrt.Int64(label)
	case 3:
		return float64(1.5)
	case 4:
		return zzrt.String(label, 1)
	case 5:
		return zzrt.StringN(label, 1)
	case 6:
		l := make([]interface{}, zzrt.Choice(label+" length", 3))
		for i := range l {
			l[i] = shape(label, depth-1)
		}
		return l
	}
	m := map[string]interface{}{}
	if zzrt.Choice(label+" size", 2) == 1 {
		m["k"] = shape(label, depth-1)
	}
	return m
}

func isScalar(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[string]interface{}:
		return false
	}
	return true
}

// HShapes: C09, values and filters of any shape. Panics are violations by themselves.
func HShapes() {
	hook = nil
	kind := zzrt.Choice("index", 2)
	in := zzkit.NewInput("in")
	n, all := zzrt.Param("recs", 1), true
	for i := 0; i < n; i++ {
		v := shape("value", zzrt.Param("depth", 1))
		all = all && isScalar(v)
		in.Recs = append(in.Recs, &zzkit.Rec{V: map[string]interface{}{"p": v}, Pos: int64(i)})
	}
	ix, err := makeIndex(kind, in, names[:1])
	if err != nil {
		zzrt.Reach("index error")
		zzrt.Assert(len(err.Error()) > 0, "an error without its reason")
		zzrt.Assert(!all, "the index refuses plain values: "+err.Error())
		return
	}
	f := shape("filter", zzrt.Param("filterdepth", 1))
	name := "p"
	if kind == 1 {
		name = "match"
	}
	it, err := ix.GetRecordPositions(in, map[string]interface{}{name: f})
	if err != nil {
		zzrt.Reach("filter error")
		zzrt.Assert(kind == 1 || !isScalar(f), "the index refuses a plain filter: "+err.Error())
		return
	}
	got, err := zzkit.Drain(it, n)
	if err != nil {
		zzrt.Reach("filter error")
		return
	}
	zzrt.Reach("answer")
	if kind == 1 {
		return
	}
	k := 0
	for _, r := range in.Recs {
		want := equal(r.V["p"], f, 0)
		if k < len(got) && got[k] == r.Pos {
			k++
			zzrt.Assert(want, "a value is found by another one")
		} else {
			zzrt.Assert(!want, "a value is not found by itself")
		}
	}
	zzrt.Assert(k == len(got), "a position is returned twice or out of order")
}
