package wild

import (
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// HCrash: C03, the build stops (or a write fails) at any change of the file, after any of its bytes.
func HCrash() {
	ignore := false
	in, props := records()
	op := zzrt.Choice("change", zzrt.Param("ops", 12))
	keep := 0
	if max := zzrt.Param("bytes", 0); max > 0 {
		keep = zzrt.Choice("bytes kept", max)
	} else {
		keep = []int{0, 1, 20, 40, 60, 400, 5_000, 9_999, 1 << 20}[zzrt.Choice("bytes kept", 9)]
	}
	fail := zzrt.Choice("write error", 2) == 1
	zzrt.FaultAt(op, keep, fail)
	var err error
	how := zzrt.Try(func() {
		_, err = open(in, config(ignore, props...))
	})
	_, hit := zzrt.FaultsOff()
	zzrt.Assert(how == "" || how == "crash", "building the index on a failing disk panics: "+how)
	if hit && fail {
		zzrt.Reach("write error")
	}
	if how == "crash" {
		zzrt.Reach("crash")
	}
	finished := how == "" && err == nil
	if finished && hit {
		zzrt.Fail("the index is declared complete although a write has failed")
	}
	var w *index.Wildcard
	w, err = open(in, config(ignore, props...))
	if err != nil {
		zzrt.Assert(!finished, "a completely written index is rejected: "+err.Error())
		zzrt.Reach("rejected")
		return
	}
	zzrt.Reach("accepted")
	for _, p := range props {
		sub := text("search", 1, zzrt.Param("search", 1))
		found := search(w, in, map[string]interface{}{p: sub})
		for i, r := range in.Recs {
			zzrt.Assert(found[i] == contains(r.V[p], sub, ignore), "an index whose building was interrupted is accepted and answers wrongly")
		}
	}
}
