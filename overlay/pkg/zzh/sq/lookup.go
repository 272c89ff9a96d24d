package sq

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

var collations = []string{"BINARY", "NOCASE", "RTRIM"}

// names of properties and indexes, some of which mean something in SQL
var names = []string{"p", "q", `a"b`, `x"); DROP TABLE t; --`, "a.b", "P Q", `""`, "offset", "é'`[]", "select", "?", "P"}

func open(in *zzkit.Input, name string, props ...*index.SqlitePropertyConfig) (*index.Sqlite, error) {
	return index.NewSqlite(&index.SqliteConfig{
		Name: name, Dsn: zzrt.Path("sqlite.db"), Properties: props, Input: "in", Logger: zzkit.Logger(),
	}, input.List{"in": in})
}

// scalar returns a value of any scalar type.
func scalar(label string, collate int) interface{} {
	switch zzrt.Choice(label+" type", zzrt.Param("types", 3)) {
	case 0:
		n := zzrt.Param("len", 1)
		switch {
		case zzrt.Param("alphabet", 0) == 1:
			return zzrt.StringOf(label, n, "'\"?;-%")
		case collate == 0:
			return zzrt.String(label, n)
		}
		s := zzrt.String(label, n)
		for i := 0; i < len(s); i++ {
			zzrt.Assume(s[i] != 0)
		}
		return s
	case 1:
		return nil
	case 2:
		return zzrt.Int64(label)
	case 3:
		return zzrt.Bool(label)
	}
	return []float64{0, 0.5, 1, -1e300}[zzrt.Choice(label, 4)]
}

func key(s string, collate int) string {
	switch collate {
	case 1:
		return zzrt.LowerASCII(s)
	case 2:
		for len(s) > 0 && s[len(s)-1] == ' ' {
			s = s[:len(s)-1]
		}
	}
	return s
}

// equal compares by value: true is 1 and 1.0 is 1.
func equal(a, b interface{}, collate int) bool {
	if x, ok := a.(bool); ok {
		a = int64(zzrt.IteInt(x, 1, 0))
	}
	if x, ok := b.(bool); ok {
		b = int64(zzrt.IteInt(x, 1, 0))
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && zzkit.SameBytes([]byte(key(x, collate)), []byte(key(y, collate)))
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case float64:
			return (y == 0 || y == 1) && x == int64(y)
		}
	case float64:
		switch y := b.(type) {
		case int64:
			return (x == 0 || x == 1) && y == int64(x)
		case float64:
			return x == y
		}
	}
	return false
}

// HLookup: C10, an index of the sqlite type against a scan, when it is built and after it is reopened.
func HLookup() {
	np := zzrt.Param("props", 1)
	var props []*index.SqlitePropertyConfig
	var collate []int
	name := "i"
	if zzrt.Param("names", 0) == 1 {
		name = names[zzrt.Choice("index name", len(names))]
	}
	for i := 0; i < np; i++ {
		c := zzrt.Choice("collation", zzrt.Param("collations", 1))
		n := names[i]
		if zzrt.Param("names", 0) > 0 {
			n = names[zzrt.Choice("property name", len(names))]
			for _, p := range props {
				zzrt.Assume(p.Name != n)
			}
		}
		props, collate = append(props, &index.SqlitePropertyConfig{Name: n, Collate: collations[c]}), append(collate, c)
	}
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	pos := int64(0)
	fill := zzrt.Param("fill", 0) // that many records come first
	n += fill
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		for k, p := range props {
			if i < fill {
				v[p.Name] = "a"
				continue
			}
			v[p.Name] = scalar("value", collate[k])
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: pos})
		if zzrt.Param("widepos", 0) == 1 {
			next := zzrt.Int64("position")
			zzrt.Assume(next > pos)
			pos = next
		} else {
			pos += 5
		}
	}
	ix, err := open(in, name, props...)
	if np == 2 && zzrt.LowerASCII(props[0].Name) == zzrt.LowerASCII(props[1].Name) {
		zzrt.Assert(err != nil, "an index with twice the same column is built")
		zzrt.Reach("refused")
		return
	}
	if err != nil {
		zzrt.Fail("building the index fails: " + err.Error())
	}
	if zzrt.Choice("reopened", 2) == 1 {
		if err := ix.Close(); err != nil {
			zzrt.Fail("closing the index fails: " + err.Error())
		}
		if ix, err = open(in, name, props...); err != nil {
			zzrt.Fail("opening the index fails: " + err.Error())
		}
		zzrt.Reach("reopened")
	}
	for search := zzrt.Param("searches", 1); search > 0; search-- {
		filters := map[string]interface{}{}
		nf := 1 + zzrt.Choice("filters", np)
		for k, p := range props[:nf] {
			filters[p.Name] = scalar("filter", collate[k])
		}
		it, err := ix.GetRecordPositions(in, filters)
		if err != nil {
			zzrt.Fail("looking up fails: " + err.Error())
		}
		got, err := zzkit.Drain(it, n)
		if err != nil {
			zzrt.Fail("looking up fails: " + err.Error())
		}
		k := 0
		for _, r := range in.Recs {
			want := true
			for i, p := range props[:nf] {
				want = zzrt.And(want, equal(r.V[p.Name], filters[p.Name], collate[i]))
			}
			if k < len(got) && got[k] == r.Pos {
				k++
				zzrt.Assert(want, "a record is returned that does not match all filters")
				zzrt.Reach("found")
			} else {
				zzrt.Assert(!want, "a matching record is not returned at its place")
				zzrt.Reach("not found")
			}
		}
		zzrt.Assert(k == len(got), "a position is returned that is not one of a record, or out of order")
		p, err := it()
		zzrt.Assert(p == nil && err == nil, "after the end, the iterator does not keep answering the end")
	}
	if err := ix.Close(); err != nil {
		zzrt.Fail("closing the index fails: " + err.Error())
	}
	zzrt.Assert(in.Opened == in.Closed, "a scan of the input is not closed")
}

// hasWords tells if these words follow one another in a text.
func hasWords(s string, prefix bool, searched ...string) bool {
	found, from := false, -1
	var all []string
	for i := 0; i <= len(s); i++ {
		inside := i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9')
		if inside && from < 0 {
			from = i
		}
		if !inside && from >= 0 {
			all = append(all, zzrt.LowerASCII(s[from:i]))
			from = -1
		}
	}
	for i := range all {
		if i+len(searched) > len(all) {
			break
		}
		yes := true
		for k, w := range searched {
			t := all[i+k]
			if prefix && len(t) > len(w) {
				t = t[:len(w)]
			}
			yes = zzrt.And(yes, t == zzrt.LowerASCII(w))
		}
		found = zzrt.Or(found, yes)
	}
	return found
}

// HWords: C10, a full-text index finds the records that contain a word.
func HWords() {
	hook = nil
	props := names[:zzrt.Param("props", 1)]
	if zzrt.Param("names", 0) == 1 {
		n := names[zzrt.Choice("property name", len(names))]
		props = []string{n}
	}
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		for _, p := range props {
			if zzrt.Choice("null", 2) == 1 {
				v[p] = nil
			} else {
				v[p] = zzrt.StringOf("value", zzrt.Param("len", 3), "aAb \"'(")
			}
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: record.Position(5 * i)})
	}
	ix, err := makeIndex(1, in, props)
	if err == nil && zzrt.Choice("reopened", 2) == 1 {
		zzrt.Assert(ix.(*index.Fts5).Close() == nil, "closing the index fails")
		ix, err = makeIndex(1, in, props)
		zzrt.Reach("reopened")
	}
	if err != nil {
		zzrt.Fail("building or opening the index fails: " + err.Error())
	}
	word := zzrt.StringOfN("searched", 1+zzrt.Choice("length", zzrt.Param("search", 2)), "aAb")
	form, second, searched := 0, "", word
	if zzrt.Param("forms", 0) == 1 {
		form = 1 + zzrt.Choice("form", 6)
		second = zzrt.StringOfN("searched", 1, "ab")
		searched = []string{"\"" + word + " " + second + "\"", word + " " + second, word + " OR " + second, word + " NOT " + second, word + "*", " \"" + word + "\"  AND " + second}[form-1]
	}
	it, err := ix.GetRecordPositions(in, map[string]interface{}{"match": searched})
	var got []record.Position
	if err == nil {
		got, err = zzkit.Drain(it, n)
	}
	if err != nil {
		zzrt.Fail("searching fails: " + err.Error())
	}
	k := 0
	for _, r := range in.Recs {
		want, also := false, false
		for _, p := range props {
			if s, ok := r.V[p].(string); ok {
				if form == 1 {
					want = zzrt.Or(want, hasWords(s, false, word, second))
				} else {
					want = zzrt.Or(want, hasWords(s, form == 5, word))
				}
				also = zzrt.Or(also, hasWords(s, false, second))
			}
		}
		switch form {
		case 2, 6:
			want = zzrt.And(want, also)
		case 3:
			want = zzrt.Or(want, also)
		case 4:
			want = zzrt.And(want, !also)
		}
		if k < len(got) && got[k] == r.Pos {
			k++
			zzrt.Assert(want, "a record is returned that does not contain the word")
			zzrt.Reach("found")
		} else {
			zzrt.Assert(!want, "a record with the word is not returned at its place")
			zzrt.Reach("not found")
		}
	}
	zzrt.Assert(k == len(got), "a position is returned that is not one of a record, or out of order")
	if zzrt.Choice("other filters", 2) == 1 {
		bad := []map[string]interface{}{{}, {"match": "a", props[0]: "a"}, {"x": "a"}}[zzrt.Choice("which", 3)]
		_, err = ix.GetRecordPositions(in, bad)
		zzrt.Assert(err != nil, "filters that the index does not handle are ignored")
	}
	zzrt.Assert(in.Opened == in.Closed, "a scan of the input is not closed")
}
