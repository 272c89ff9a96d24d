package sq

import (
	"errors"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// hook is called before every statement that the database runs.
var hook func() error

// stopAt makes the statement of a number stop the process or fail.
func stopAt(n int, fail bool) (hit *bool) {
	hit = new(bool)
	k := 0
	hook = func() error {
		k++
		if k-1 != n {
			return nil
		}
		*hit = true
		if fail {
			return errors.New("disk I/O error")
		}
		zzrt.Crash()
		return nil
	}
	return hit
}

func makeIndex(kind int, in *zzkit.Input, props []string) (index.Index, error) {
	return makeNamed(kind, "i", in, props)
}

func makeNamed(kind int, id string, in *zzkit.Input, props []string) (index.Index, error) {
	if kind == 1 {
		x, err := index.NewFts5(&index.Fts5Config{
			Name: id, Dsn: zzrt.Path("sqlite.db"), Properties: props, Input: "in", Prefix: []int{}, Tokenize: "unicode61", Logger: zzkit.Logger(),
		}, input.List{"in": in})
		if err != nil {
			return nil, err
		}
		return x, nil
	}
	var all []*index.SqlitePropertyConfig
	for _, p := range props {
		all = append(all, &index.SqlitePropertyConfig{Name: p, Collate: "BINARY"})
	}
	x, err := open(in, id, all...)
	if err != nil {
		return nil, err
	}
	return x, nil
}

// HCrash: C03, the build stops or fails at any statement or at any use of the input.
func HCrash() {
	hook = nil
	kind := zzrt.Choice("index", 2)
	props := names[:1+zzrt.Choice("properties", zzrt.Param("props", 1))]
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		for _, p := range props {
			v[p] = zzrt.StringOfN("value", 1, "ab")
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: record.Position(i)})
	}
	var hit *bool
	fail := zzrt.Choice("error", 2) == 1
	if zzrt.Choice("place", 2) == 0 {
		hit = stopAt(zzrt.Choice("statement", zzrt.Param("statements", 40)), fail)
	} else {
		hit = new(bool)
		at, k := zzrt.Choice("step", 4+2*n), 0
		in.Hook = func(what string) error {
			k++
			if k-1 != at {
				return nil
			}
			*hit = what != "size" // it may only serve to show the progress
			if fail {
				return errors.New("input error")
			}
			zzrt.Crash()
			return nil
		}
	}
	var err error
	how := zzrt.Try(func() {
		_, err = makeIndex(kind, in, props)
	})
	hook, in.Hook = nil, nil
	zzrt.Assert(how == "" || how == "crash", "building the index panics: "+how)
	if how == "crash" {
		zzrt.Reach("crash")
	}
	if *hit && fail {
		zzrt.Assert(err != nil, "the index is declared complete although a step has failed")
		zzrt.Reach("failure")
	}
	finished := how == "" && err == nil
	ix, err := makeIndex(kind, in, props)
	if err != nil {
		zzrt.Assert(!finished, "a completely written index is rejected")
		zzrt.Reach("rejected")
		return
	}
	zzrt.Reach("accepted")
	searched := zzrt.StringOfN("searched", 1, "ab")
	p := "match"
	if kind == 0 {
		p = props[zzrt.Choice("searched property", len(props))]
	}
	it, err := ix.GetRecordPositions(in, map[string]interface{}{p: searched})
	var got []record.Position
	if err == nil {
		got, err = zzkit.Drain(it, n)
	}
	if err != nil {
		zzrt.Fail("an index whose building was interrupted is accepted and then fails: " + err.Error())
	}
	k := 0
	for _, r := range in.Recs {
		want := false
		for _, q := range props {
			if kind == 1 || p == q {
				want = zzrt.Or(want, r.V[q].(string) == searched)
			}
		}
		if k < len(got) && got[k] == r.Pos {
			k++
			zzrt.Assert(want, "an index whose building was interrupted is accepted and answers wrongly")
		} else {
			zzrt.Assert(!want, "an index whose building was interrupted is accepted and misses a record")
		}
	}
	zzrt.Assert(k == len(got), "an index whose building was interrupted is accepted and returns other positions")
}
