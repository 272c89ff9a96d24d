package sq

import (
	"errors"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// HHandles: C29, connections and cursors of the databases.
func HHandles() {
	hook = nil
	kind := zzrt.Choice("index", 2)
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		switch zzrt.Choice("value", zzrt.Param("values", 3)) {
		case 0:
			v["p"] = "a"
		case 1: // the property does not exist
		case 2:
			v["p"] = []interface{}{} // no database takes it
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: record.Position(i)})
	}
	files := zzrt.OpenFiles()
	if zzrt.Choice("place", 2) == 0 {
		// more than a build and the searches need
		stopAt(zzrt.Choice("statement", zzrt.Param("statements", 40)), true)
	} else if at := zzrt.Choice("step", 6+2*n); at > 0 {
		k := 0
		in.Hook = func(what string) error {
			k++
			if k == at {
				return errors.New("input error")
			}
			return nil
		}
	}
	for run := 0; run < 2; run++ {
		x, err := makeIndex(kind, in, []string{"p"})
		zzrt.Assert(in.Opened == in.Closed, "building an index leaves a scan of its input open")
		if err != nil {
			zzrt.Assert(zzrt.OpenFiles() == files, "an index that cannot be opened leaves its database open")
			zzrt.Reach("refused")
			continue
		}
		base := zzrt.OpenFiles()
		zzrt.Assert(base <= files+1, "building an index leaves cursors open")
		p := "p"
		if kind == 1 {
			p = "match"
		}
		for k := 0; k < zzrt.Param("searches", 3); k++ {
			if k == 1 {
				switch zzrt.Choice("wrong search", 3) {
				case 1:
					p = "other"
				case 2:
					p = "rank"
				}
			}
			it, err := x.GetRecordPositions(in, map[string]interface{}{p: "a"})
			if err == nil {
				for stop := zzrt.Choice("records read", 3); stop > 0; stop-- {
					q, err := it()
					if q == nil || err != nil {
						break
					}
				}
				zzrt.Reach("searched")
			} else {
				zzrt.Reach("failed search")
			}
			zzrt.Assert(zzrt.OpenFiles() <= files+1, "a search leaves a cursor open")
		}
		x.Close()
		zzrt.Assert(zzrt.OpenFiles() == files, "a closed index leaves its database open")
		zzrt.Reach("closed")
	}
}
