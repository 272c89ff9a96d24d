package sq

import (
	"database/sql"
	"strings"
	"time"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func modTime(label string) time.Time {
	s := zzrt.Int64(label)
	zzrt.Assume(s > -1<<53 && s < 1<<53)
	n := zzrt.Int64(label + " nanoseconds")
	zzrt.Assume(n >= 0 && n < 1e9)
	return time.Unix(s, n)
}

func oneRecord() *zzkit.Input {
	in := zzkit.NewInput("in")
	in.Recs = []*zzkit.Rec{{V: map[string]interface{}{"p": "a", "q": "b"}, Pos: 0}}
	in.SizeV, in.Mod = zzrt.Int64("size"), modTime("time")
	return in
}

func check(kind int, ix index.Index, in *zzkit.Input) {
	f := map[string]interface{}{"p": "a"}
	if kind == 1 {
		f = map[string]interface{}{"match": "a"}
	}
	it, err := ix.GetRecordPositions(in, f)
	if err != nil {
		zzrt.Fail("the index used fails: " + err.Error())
	}
	got, err := zzkit.Drain(it, 1)
	zzrt.Assert(err == nil && len(got) == 1 && got[0] == 0, "the index used answers wrongly")
	zzrt.Assert(ix.(interface{ Close() error }).Close() == nil, "closing the index fails")
}

// HStale: C04, a database is used for the input that it was made from only.
func HStale() {
	hook = nil
	kind := zzrt.Choice("index", 2)
	in := oneRecord()
	built, err := makeIndex(kind, in, names[:1])
	if err != nil {
		zzrt.Fail("building the index fails: " + err.Error())
	}
	check(kind, built, in)
	in2 := &zzkit.Input{InputName: "in", Recs: in.Recs, SizeV: zzrt.Int64("new size"), Mod: modTime("new time"), FailNext: -1, FailGet: -1}
	ix, err := makeIndex(kind, in2, names[:1])
	zzrt.Assert(in2.Scans == 0, "a saved index is built again")
	same := zzrt.And(in2.SizeV == in.SizeV, in2.Mod.Unix() == in.Mod.Unix())
	if err == nil {
		zzrt.Reach("accepted")
		zzrt.Assert(same, "an index built from different data is used")
		check(kind, ix, in2)
		return
	}
	zzrt.Reach("rejected")
	zzrt.Assert(!same, "an index that matches is rejected: "+err.Error())
}

// HRecorded: C04, any other value recorded in the database makes it rejected.
func HRecorded() {
	hook = nil
	kind := zzrt.Choice("index", 2)
	in := oneRecord()
	built, err := makeIndex(kind, in, names[:1])
	if err != nil {
		zzrt.Fail("building the index fails: " + err.Error())
	}
	check(kind, built, in)
	db, err := sql.Open("sqlite3", zzrt.Path("sqlite.db"))
	if err != nil {
		zzrt.Fail(err.Error())
	}
	rows, err := db.Query(`SELECT * FROM "rodb_i_metadata"`)
	if err != nil {
		return // stored in another way
	}
	cols, err := rows.Columns()
	if err != nil || !rows.Next() {
		zzrt.Fail("nothing is recorded")
	}
	old := make([]interface{}, len(cols))
	to := make([]interface{}, len(cols))
	for i := range to {
		to[i] = &old[i]
	}
	if err := rows.Scan(to...); err != nil {
		zzrt.Fail(err.Error())
	}
	rows.Close()
	at := zzrt.Choice("column", 4)
	if at >= len(cols) {
		return
	}
	v := int64(0)
	if strings.Contains(strings.ToLower(cols[at]), "version") {
		// read through its text, which has too many forms
		v = []int64{-1, 0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 1 << 32, 1<<32 + 1, -65535, -1 << 63}[zzrt.Choice("new value", 15)]
	} else {
		v = zzrt.Int64("new value")
	}
	switch o := old[at].(type) {
	case int64:
		zzrt.Assume(v != o)
	case bool:
		zzrt.Assume((v > 0) != o)
	default:
		return
	}
	if _, err := db.Exec(`UPDATE "rodb_i_metadata" SET "`+strings.Replace(cols[at], `"`, `""`, -1)+`" = ?`, v); err != nil {
		zzrt.Fail(err.Error())
	}
	if err := db.Close(); err != nil {
		zzrt.Fail(err.Error())
	}
	_, err = makeIndex(kind, in, names[:1])
	zzrt.Assert(err != nil, "an index with another recorded "+cols[at]+" is used")
	zzrt.Reach("rejected")
}

// HShared: C04, several indexes live in one database, each with what was built for it: another index
// there, whatever its name, neither stands in for a missing one nor gets in the way of a saved one.
func HShared() {
	hook = nil
	ids := []string{"a_b", "axb", "a%b", "ab", "b"}
	x := zzrt.Choice("first", len(ids))
	y := zzrt.Choice("second", len(ids))
	zzrt.Assume(x != y)
	kinds := [2]int{zzrt.Choice("kind of the first", 2), zzrt.Choice("kind of the second", 2)}
	var ins [2]*zzkit.Input
	for pass := 0; pass < 2; pass++ {
		for i, id := range []string{ids[x], ids[y]} {
			if pass == 0 {
				ins[i] = oneRecord()
			} else {
				ins[i] = &zzkit.Input{InputName: "in", Recs: ins[i].Recs, SizeV: ins[i].SizeV, Mod: ins[i].Mod, FailNext: -1, FailGet: -1}
			}
			ix, err := makeNamed(kinds[i], id, ins[i], names[:1])
			if err != nil {
				zzrt.Fail("the index " + id + " is refused: " + err.Error())
			}
			zzrt.Assert((ins[i].Scans == 0) == (pass == 1), "an index is not built when it has to be, or is built again")
			check(kinds[i], ix, ins[i])
		}
	}
	zzrt.Reach("shared")
}
