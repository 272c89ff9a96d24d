// Package sorting: the order of records (C20).
package sorting

import (
	"errors"
	"math"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// kinds: which types a property can have (bits: 1 integer, 2 text, 4 null, 8 boolean, 16 number, 32 list, 64 missing)
func val(label string) interface{} {
	mask := zzrt.Param("kinds", 1)
	var opts []int
	for i := 0; i < 7; i++ {
		if mask>>uint(i)&1 == 1 {
			opts = append(opts, i)
		}
	}
	switch opts[zzrt.Choice(label+" type", len(opts))] {
	case 0:
		return zzrt.Int64(label)
	case 1:
		return zzrt.StringN(label, zzrt.Choice(label+" length", zzrt.Param("len", 1)+1))
	case 2:
		return nil
	case 3:
		return zzrt.Bool(label)
	case 4:
		return math.Float64frombits(zzrt.Float64bits(label))
	case 5:
		return []interface{}{int64(1)}
	}
	return missing{}
}

type missing struct{}

type rec struct {
	v   map[string]interface{}
	pos int64
}

func (r *rec) All() (map[string]interface{}, error) { return r.v, nil }
func (r *rec) Position() record.Position            { return r.pos }
func (r *rec) Get(p string) (interface{}, error) {
	v := r.v[p]
	if _, ok := v.(missing); ok {
		return nil, errors.New("no such property")
	}
	return v, nil
}

// before returns whether a must not come after b, and whether it must come before it, for values of the same type.
func cmp(a, b interface{}) (lt, gt bool) {
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		return x < y, x > y
	case bool:
		y := b.(bool)
		return zzrt.And(!x, y), zzrt.And(x, !y)
	case float64:
		y := b.(float64)
		if math.IsNaN(x) || math.IsNaN(y) {
			return false, false // only the consistency of the whole is checked
		}
		return x < y, x > y
	case string:
		y := b.(string)
		eq := true
		for i := 0; i < len(x) && i < len(y); i++ {
			lt = zzrt.Or(lt, zzrt.And(eq, x[i] < y[i]))
			gt = zzrt.Or(gt, zzrt.And(eq, x[i] > y[i]))
			eq = zzrt.And(eq, x[i] == y[i])
		}
		return zzrt.Or(lt, zzrt.And(eq, len(x) < len(y))), zzrt.Or(gt, zzrt.And(eq, len(x) > len(y)))
	}
	return false, false
}

func kind(v interface{}) int {
	switch x := v.(type) {
	case int64:
		return 1
	case bool:
		return 2
	case float64:
		if math.IsNaN(x) {
			return 3
		}
		return 4
	case string:
		return 5
	case nil, missing:
		return 0
	}
	return 6
}

// HSort: the result is a permutation, sorted for every pair whose values are comparable, and values that are not
// comparable are grouped consistently.
func HSort() {
	n := zzrt.Param("min", 0) + zzrt.Choice("records", zzrt.Param("recs", 3)-zzrt.Param("min", 0)+1)
	props := []string{"p", "q", "r"}[:zzrt.Param("props", 1)]
	var list record.List
	for i := 0; i < n; i++ {
		r := &rec{v: map[string]interface{}{}, pos: int64(i)}
		for _, p := range props {
			if fixed := zzrt.Param("fixed", 0); i < fixed {
				r.v[p] = int64((i*7 + 3) % 5)
			} else {
				r.v[p] = val(p)
			}
		}
		list = append(list, r)
	}
	orig := append(record.List{}, list...)
	var cfg []*record.SortConfig
	var asc []bool
	for _, p := range props {
		c := &record.SortConfig{Property: p, Logger: zzkit.Logger()}
		up := true
		switch zzrt.Choice("direction", zzrt.Param("directions", 3)) {
		case 0:
			c.Ascending = zzkit.Bool(true)
		case 1:
			c.Ascending = zzkit.Bool(false)
			up = false
		}
		asc = append(asc, up)
		cfg = append(cfg, c)
	}
	got := list.Sort(cfg)

	zzrt.Assert(len(got) == len(orig), "sorting loses or adds records")
	seen := make([]bool, n)
	for _, r := range got {
		p := r.Position()
		zzrt.Assert(p >= 0 && p < int64(n) && !seen[p], "sorting does not give the same records")
		seen[p] = true
	}
	for i := range got {
		for j := i + 1; j < len(got); j++ {
			a, b := got[i].(*rec), got[j].(*rec)
			undecided, wrong := true, false
			for k, p := range props {
				ka, kb := kind(a.v[p]), kind(b.v[p])
				if ka != kb {
					// different types: only consistency is required, see below
					undecided = false
					break
				}
				lt, gt := cmp(a.v[p], b.v[p])
				if !asc[k] {
					lt, gt = gt, lt
				}
				wrong = zzrt.Or(wrong, zzrt.And(undecided, gt))
				undecided = zzrt.And(undecided, !zzrt.Or(lt, gt))
			}
			zzrt.Assert(!wrong, "an earlier record compares after a later one")
		}
	}
	// Records of one type for the first property are next to each other
	if len(props) > 0 {
		last, done := -1, map[int]bool{}
		for _, r := range got {
			k := kind(r.(*rec).v[props[0]])
			if k != last {
				zzrt.Assert(!done[k], "values of different types are mixed up")
				done[last] = true
				last = k
			}
		}
		if len(done) > 1 {
			zzrt.Reach("several types")
		}
	}
	for i := range got {
		if got[i].Position() != int64(i) {
			zzrt.Reach("moved")
		}
	}
	zzrt.Reach("end")
}

// HCompare: comparing is antisymmetric and, for three values, transitive.
func HCompare() {
	c := func(a, b interface{}) (int, bool) {
		r, err := parser.Compare(a, b)
		if err != nil {
			return 0, false
		}
		if r == nil {
			return 0, true
		}
		if *r {
			return -1, true
		}
		return 1, true
	}
	x, y, z := val("x"), val("y"), val("z")
	xy, ok1 := c(x, y)
	yx, ok2 := c(y, x)
	zzrt.Assert(ok1 == ok2, "two values are comparable in one order only")
	if !ok1 {
		zzrt.Reach("not comparable")
		zzrt.Assert(kind(x) != kind(y) || kind(x) == 6, "two values of the same type are not comparable")
		return
	}
	zzrt.Assert(xy == -yx, "two values compare differently in the two orders")
	lt, gt := cmp2(x, y)
	zzrt.Assert(zzrt.Or(!lt, xy == -1), "a lower value compares wrongly")
	zzrt.Assert(zzrt.Or(!gt, xy == 1), "a greater value compares wrongly")
	yz, ok3 := c(y, z)
	xz, ok4 := c(x, z)
	if ok3 && ok4 {
		zzrt.Assert(!(xy <= 0 && yz <= 0) || xz <= 0, "comparing is not transitive")
		zzrt.Reach("three")
	}
}

func cmp2(a, b interface{}) (lt, gt bool) {
	if kind(a) != kind(b) || kind(a) == 6 {
		return false, false
	}
	return cmp(a, b)
}
