package wild

import (
	"os"
	"strings"
	"time"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func config(ignoreCase bool, props ...string) *index.WildcardConfig {
	return &index.WildcardConfig{Name: "w", Path: zzrt.Path("index"), Input: "in", Properties: props, IgnoreCase: zzkit.Bool(ignoreCase), Logger: zzkit.Logger()}
}

// modTime is any time within about 300 000 years, with a nanosecond part.
func modTime(label string) time.Time {
	sec, ns := zzrt.Int64(label), zzrt.Int64(label+" (ns)")
	zzrt.Assume(zzrt.And(ns >= 0, ns < 1000000000, sec > -1<<43, sec < 1<<43))
	return time.Unix(sec, ns)
}

func open(in input.Input, cfg *index.WildcardConfig) (*index.Wildcard, error) {
	return index.NewWildcard(cfg, input.List{"in": in})
}

// search returns, for each record, whether the index finds it, and checks order and uniqueness.
func search(w *index.Wildcard, in *zzkit.Input, filters map[string]interface{}) []bool {
	it, err := w.GetRecordPositions(in, filters)
	must(err, "searching")
	got, err := zzkit.Drain(it, len(in.Recs))
	must(err, "reading the search results")
	found := make([]bool, len(in.Recs))
	next := 0
	for _, p := range got {
		ok := false
		for next < len(in.Recs) && !ok {
			if in.Recs[next].Pos == p {
				found[next] = true
				ok = true
			}
			next++
		}
		zzrt.Assert(ok, "the positions found are not distinct, ascending positions of records")
	}
	return found
}

// text returns a symbolic text; alphabet 0 means any byte.
func text(label string, min, max int) string {
	n := min + zzrt.Choice(label+".len", max-min+1)
	switch zzrt.Param("alphabet", 0) {
	case 1:
		return zzrt.StringOfN(label, n, "ab")
	case 2:
		return zzrt.StringOfN(label, n, "aAbB")
	case 3: // multi-byte letters
		s := ""
		for i := 0; i < n; i++ {
			s += []string{"a", "A", "é", "É", "ß", "İ"}[zzrt.Choice(label, 6)]
		}
		return s
	case 4:
		return zzrt.StringOfN(label, n, "abcxyz")
	case 5: // letters whose cases do not come in pairs: only what contains them as they are is judged
		s := ""
		for i := 0; i < n; i++ {
			s += []string{"s", "ſ", "σ", "ς", "Σ", "ı", "i", "K", "ǅ"}[zzrt.Choice(label, 9)]
		}
		return s
	}
	return zzrt.StringN(label, n)
}

func lowered(s string, ignore bool) string {
	if ignore {
		return strings.ToLower(s)
	}
	return s
}

func contains(value interface{}, sub string, ignore bool) bool {
	switch v := value.(type) {
	case string:
		return zzrt.Contains(lowered(v, ignore), lowered(sub, ignore))
	case []interface{}:
		r := false
		for _, e := range v {
			r = zzrt.Or(r, contains(e, sub, ignore))
		}
		return r
	}
	return false
}

// filler makes an index that is larger than the internal write buffer.
func filler(seed int, n int) string {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = 'y' + byte(x>>30&1)
	}
	return string(b)
}

// base gives the records that come before the symbolic ones.
func base() []string {
	switch zzrt.Param("base", 0) {
	case 1:
		return [][]string{
			{"abx", "aby"}, // a node of two letters that has two children
			{"abxabyab"},
			{"xyz", "xy", "x", "xyz"},
			{"abc", "abc", "ab", "abx"},
		}[zzrt.Choice("base", 4)]
	case 3: // the node of ab, which has two children, is split
		return []string{"abx", "aby", "ac"}
	case 4: // a text that is longer than a byte can count
		return []string{filler(0, zzrt.Param("length", 300)) + "c", "yzc"}
	case 2: // a node that has many children
		var l []string
		for i := 0; i < zzrt.Param("children", 140); i++ {
			l = append(l, string([]byte{byte(i * 7)}))
		}
		return l
	}
	return nil
}

func records() (in *zzkit.Input, props []string) {
	nrec := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	if zzrt.Param("exact", 0) == 1 {
		zzrt.Assume(nrec == zzrt.Param("recs", 2))
	}
	nprops := zzrt.Param("props", 1)
	max := zzrt.Param("len", 2)
	fill := zzrt.Param("fill", 0)
	arrays := zzrt.Param("arrays", 0)
	props = []string{"p", "q"}[:nprops]
	in = zzkit.NewInput("in")
	pos := int64(0)
	for _, text := range base() {
		v := map[string]interface{}{}
		for _, p := range props {
			v[p] = text
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: pos})
		pos += 3
	}
	for i := 0; i < nrec; i++ {
		v := map[string]interface{}{}
		for _, p := range props {
			if arrays > 0 {
				n := zzrt.Choice("array length", arrays+1)
				a := make([]interface{}, n)
				for j := range a {
					a[j] = text("value", 0, max)
				}
				v[p] = a
			} else {
				v[p] = text("value", 0, max)
			}
		}
		if zzrt.Param("widepos", 0) == 1 {
			np := zzrt.Int64("position")
			if i > 0 {
				zzrt.Assume(np > pos)
			}
			pos = np
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: pos})
		if zzrt.Param("widepos", 0) == 0 {
			pos += 7 + int64(i)*1000
			if fill > 0 {
				f := map[string]interface{}{}
				for _, p := range props {
					f[p] = filler(i, fill)
				}
				in.Recs = append(in.Recs, &zzkit.Rec{V: f, Pos: pos})
				pos += 7
			}
		}
	}
	return in, props
}

// HSearch: C01.
func HSearch() {
	ignore := zzrt.Param("ignore", 0) == 1
	exactOnly := zzrt.Param("alphabet", 0) == 5
	in, props := records()
	w, err := open(in, config(ignore, props...))
	must(err, "building the index")
	filters := map[string]interface{}{}
	want := make([]bool, len(in.Recs))
	for i := range want {
		want[i] = true
	}
	for _, p := range props {
		sub := text("search", 1, zzrt.Param("search", 2))
		if n := zzrt.Param("length", 0); n > 0 && zzrt.Choice("long search", 2) == 1 {
			sub = filler(0, n)[zzrt.Choice("from", 3):] + sub
		}
		filters[p] = sub
		for i, r := range in.Recs {
			want[i] = zzrt.And(want[i], contains(r.V[p], sub, ignore && !exactOnly))
		}
	}
	found := search(w, in, filters)
	any := false
	for i := range want {
		if found[i] {
			any = true
			zzrt.Assert(zzrt.Or(exactOnly, want[i]), "a record is returned that does not contain the text")
		} else {
			zzrt.Assert(!want[i], "a record that contains the text is not returned")
		}
	}
	if any {
		zzrt.Reach("found")
	} else {
		zzrt.Reach("nothing found")
	}
	zzrt.Observe("found", int64(len(found)))
}

// HReload: C02, the file answers like the index that wrote it.
func HReload() {
	ignore := zzrt.Param("ignore", 0) == 1
	in, props := records()
	if zzrt.Param("anyinput", 0) == 1 {
		in.SizeV = zzrt.Int64("input size")
		in.Mod = modTime("input time")
	}
	built, err := open(in, config(ignore, props...))
	must(err, "building the index")
	scans := in.Scans
	loaded, err := open(in, config(ignore, props...))
	must(err, "loading the index")
	zzrt.Assert(in.Scans == scans, "the second start builds the index again")
	for _, p := range props {
		sub := text("search", 0, zzrt.Param("search", 2))
		f := map[string]interface{}{p: sub}
		a := search(built, in, f)
		b := search(loaded, in, f)
		any := false
		for i := range a {
			zzrt.Assert(a[i] == b[i], "the loaded index answers differently from the one that was built")
			any = any || a[i]
		}
		if len(sub) > 0 {
			for i, r := range in.Recs {
				zzrt.Assert(b[i] == contains(r.V[p], sub, ignore), "the loaded index misses a record or returns a wrong one")
			}
		}
		if any {
			zzrt.Reach("found")
		} else {
			zzrt.Reach("nothing found")
		}
	}
}

// HStale: a saved index is used exactly when everything recorded in it matches.
func HStale() {
	in, props := records()
	in.SizeV, in.Mod = zzrt.Int64("size"), modTime("time")
	ignore := zzrt.Bool("ignoreCase")
	built, err := open(in, config(ignore, props...))
	must(err, "building the index")
	built.Close()

	in2 := &zzkit.Input{InputName: "in", Recs: in.Recs, SizeV: zzrt.Int64("new size"), Mod: modTime("new time"), FailNext: -1, FailGet: -1}
	ignore2 := zzrt.Bool("new ignoreCase")
	props2 := []string{"p", "q", "r"}[:1+zzrt.Choice("new properties", 3)]
	w, err := open(in2, config(ignore2, props2...))
	zzrt.Assert(in2.Scans == 0, "a saved index is built again")
	same := zzrt.And(in2.SizeV == in.SizeV, in2.Mod.Unix() == in.Mod.Unix(), ignore2 == ignore, len(props2) == len(props))
	if err == nil {
		zzrt.Reach("accepted")
		zzrt.Assert(same, "an index built from different data or settings is used")
		f := map[string]interface{}{"p": text("search", 1, 1)}
		found := search(w, in2, f)
		for i, r := range in.Recs {
			zzrt.Assert(found[i] == contains(r.V["p"], f["p"].(string), ignore), "the index used answers wrongly")
		}
	} else {
		zzrt.Reach("rejected")
		// The recorded time has whole seconds: a difference below that may be noticed or not
		zzrt.Assert(!zzrt.And(same, in2.Mod.Nanosecond() == in.Mod.Nanosecond()), "an index that matches is rejected")
	}
}

// HHeaderByte: changing any byte that records the format, the input, the settings or the completion makes the
// index rejected.
func HHeaderByte() {
	in, props := records()
	in.SizeV, in.Mod = zzrt.Int64("size"), modTime("time")
	ignore := zzrt.Bool("ignoreCase")
	_, err := open(in, config(ignore, props...))
	must(err, "building the index")
	data, err := os.ReadFile(zzrt.Path("index"))
	must(err, "reading the file")
	at := zzrt.Choice("byte", 19+2+8+8+1+1+8)
	v := zzrt.Byte("new value")
	zzrt.Assume(v != data[at])
	data[at] = v
	must(os.WriteFile(zzrt.Path("index"), data, 0600), "writing the file")
	_, err = open(in, config(ignore, props...))
	if err == nil {
		// A flag can be stored as any non-zero byte
		flag := at == 37 || at == 38
		zzrt.Assert(flag && zzrt.Or(at == 38, ignore), "an index whose header was changed is used")
		zzrt.Reach("accepted")
	} else {
		zzrt.Reach("rejected")
	}
}
