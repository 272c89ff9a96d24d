package sq

import (
	"sync"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// HConc: C28, searches in one database run at the same time.
func HConc() {
	hook = nil
	kind := zzrt.Param("index", -1)
	if kind < 0 {
		kind = zzrt.Choice("index", 2)
	}
	in := zzkit.NewInput("in")
	values := []string{"a", zzrt.StringOfN("value", 1, "abc"[:zzrt.Param("values", 2)])}
	for i, v := range values {
		in.Recs = append(in.Recs, &zzkit.Rec{V: map[string]interface{}{"p": v}, Pos: record.Position(i)})
	}
	dsn := zzrt.Path("sqlite.db")
	if zzrt.Choice("memory", zzrt.Param("places", 2)) == 1 {
		dsn = ":memory:"
	}
	var x index.Index
	var err error
	l := input.List{"in": in}
	p := "p"
	if kind == 0 {
		x, err = index.NewSqlite(&index.SqliteConfig{Name: "i", Dsn: dsn, Properties: []*index.SqlitePropertyConfig{{Name: "p", Collate: "BINARY"}}, Input: "in", Logger: zzkit.Logger()}, l)
	} else {
		p = "match"
		x, err = index.NewFts5(&index.Fts5Config{Name: "i", Dsn: dsn, Properties: []string{"p"}, Input: "in", Prefix: []int{}, Tokenize: "unicode61", Logger: zzkit.Logger()}, l)
	}
	if err != nil {
		zzrt.Fail("building the index fails: " + err.Error())
	}
	searched := []string{"a", zzrt.StringOfN("search", 1, "ac")}
	n := zzrt.Param("searches", 1)
	got, failed := make([][]int64, len(searched)), make([]bool, len(searched))
	var wg sync.WaitGroup
	zzrt.Races(true)
	zzrt.Interleave(1, zzrt.Param("switches", 1))
	for k := range searched {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < n; i++ {
				it, err := x.GetRecordPositions(in, map[string]interface{}{p: searched[k]})
				for err == nil {
					var q *record.Position
					q, err = it()
					if q == nil || len(got[k]) > 2*n {
						break
					}
					got[k] = append(got[k], int64(*q))
				}
				failed[k] = failed[k] || err != nil
			}
		}(k)
	}
	wg.Wait()
	zzrt.Interleave(0, 0)
	zzrt.Races(false)
	for k, s := range searched {
		zzrt.Assert(!failed[k], "a search fails because of another one")
		var want []int64
		for i := 0; i < n; i++ {
			for j, v := range values {
				if v == s {
					want = append(want, int64(j))
				}
			}
		}
		zzrt.Assert(len(got[k]) == len(want), "the answer of a search is not the one it gets alone")
		for j := range want {
			zzrt.Assert(got[k][j] == want[j], "the answer of a search is not the one it gets alone")
		}
		if len(want) > 0 && k > 0 {
			zzrt.Reach("found")
		}
	}
	zzrt.Assert(x.Close() == nil, "closing the index fails")
	zzrt.Reach("closed")
}
