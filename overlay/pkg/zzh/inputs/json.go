package inputs

import (
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func newJson(text string) *input.Json {
	path := zzrt.Path("data.json")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	conf := &input.JsonConfig{Name: "in", Path: path, DieOnInputChange: zzkit.Bool(true)}
	if err := conf.Validate(nil, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	in, err := input.NewJson(conf)
	if err != nil {
		zzrt.Fail("opening the input fails: " + err.Error())
	}
	zzrt.AtEnd(func() { in.Close() })
	return in
}

// jparse is a plain JSON reader: the value at s[i:], where it ends, and whether there is one.
func jparse(s string, i int, depth int) (v interface{}, end int, ok bool) {
	i = jspace(s, i)
	if i >= len(s) {
		return nil, i, false
	}
	switch c := s[i]; {
	case c == '{':
		m := map[string]interface{}{}
		i = jspace(s, i+1)
		if i < len(s) && s[i] == '}' {
			return m, i + 1, true
		}
		for {
			k, e, ok := jparse(s, i, depth+1)
			name, isText := k.(string)
			if !ok || !isText {
				return nil, e, false
			}
			i = jspace(s, e)
			if i >= len(s) || s[i] != ':' {
				return nil, i, false
			}
			v, e, ok := jparse(s, i+1, depth+1)
			if !ok {
				return nil, e, false
			}
			m[name] = v
			i = jspace(s, e)
			if i >= len(s) {
				return nil, i, false
			}
			if s[i] == '}' {
				return m, i + 1, true
			}
			if s[i] != ',' {
				return nil, i, false
			}
			i = jspace(s, i+1)
		}
	case c == '[':
		l := []interface{}{}
		i = jspace(s, i+1)
		if i < len(s) && s[i] == ']' {
			return l, i + 1, true
		}
		for {
			v, e, ok := jparse(s, i, depth+1)
			if !ok {
				return nil, e, false
			}
			l = append(l, v)
			i = jspace(s, e)
			if i >= len(s) {
				return nil, i, false
			}
			if s[i] == ']' {
				return l, i + 1, true
			}
			if s[i] != ',' {
				return nil, i, false
			}
			i++
		}
	case c == '"':
		out := ""
		for i++; i < len(s); i++ {
			switch {
			case s[i] == '"':
				return out, i + 1, true
			case s[i] < 0x20:
				return nil, i, false
			case s[i] == '\\':
				i++
				if i >= len(s) {
					return nil, i, false
				}
				switch s[i] {
				case '"':
					out += "\""
				case '\\':
					out += "\\"
				case '/':
					out += "/"
				case 'n':
					out += "\n"
				case 't':
					out += "\t"
				case 'b':
					out += "\b"
				case 'f':
					out += "\f"
				case 'r':
					out += "\r"
				default:
					return nil, i, false // \u is not used by the harnesses
				}
			default:
				out += s[i : i+1]
			}
		}
		return nil, i, false
	case c == '-' || c >= '0' && c <= '9':
		start := i
		if c == '-' {
			i++
		}
		d := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == d || s[d] == '0' && i > d+1 {
			return nil, i, false
		}
		if i < len(s) && s[i] == '.' {
			d = i + 1
			for i++; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			}
			if i == d {
				return nil, i, false
			}
		}
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			i++
			if i < len(s) && (s[i] == '+' || s[i] == '-') {
				i++
			}
			d = i
			for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			}
			if i == d {
				return nil, i, false
			}
		}
		f, err := strconv.ParseFloat(s[start:i], 64)
		if err != nil {
			return nil, i, false
		}
		return f, i, true
	}
	for _, w := range []string{"true", "false", "null"} {
		if i+len(w) <= len(s) && s[i:i+len(w)] == w {
			switch w {
			case "true":
				return true, i + len(w), true
			case "false":
				return false, i + len(w), true
			}
			return nil, i + len(w), true
		}
	}
	return nil, i, false
}

func jspace(s string, i int) int {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
		i++
	}
	return i
}

func jsame(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && zzkit.SameBytes([]byte(x), []byte(y))
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsame(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, has := y[k]
			if !has || !jsame(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

type jdoc struct {
	v   map[string]interface{}
	bad bool
}

// jdocs are the documents of a text, up to the first one that is not an object.
func jdocs(s string) []jdoc {
	var all []jdoc
	for i := 0; ; {
		i = jspace(s, i)
		if i >= len(s) {
			return all
		}
		v, end, ok := jparse(s, i, 0)
		m, isMap := v.(map[string]interface{})
		if ok && v == nil {
			m, isMap = map[string]interface{}{}, true // null: no properties
		}
		if !ok || !isMap {
			return append(all, jdoc{bad: true})
		}
		all = append(all, jdoc{v: m})
		i = end
	}
}

const spaces = " \n\r\t"

func jsonText() string {
	n := zzrt.Param("len", 2)
	sym := func(alphabet string) string {
		k := zzrt.Choice("len", n+1)
		if alphabet == "" {
			return zzrt.StringN("text", k)
		}
		return zzrt.StringOfN("text", k, alphabet)
	}
	pad := strings.Repeat("p", zzrt.Param("fill", 0))
	switch zzrt.Param("shape", 0) {
	case 0: // anything
		return sym("")
	case 1: // between two documents
		return "{\"a\":\"" + pad + "\"}" + sym("{}[],: \n\t\r1\"") + "{\"a\":[1,{}]}\n"
	case 2: // inside a document
		return "{\"a\":" + sym("{}[],: 1-.e\"\\tn") + "}{\"b\":null}"
	case 3: // before and after
		return sym(spaces) + "{\"a\":\"" + pad + "\"}" + sym(spaces) + "{\"a\":[true,false]}" + sym(spaces) + "{}" + sym(spaces+"}]")
	case 4: // inside a text and its name
		return "{\"" + sym("ab\"\\/ ,:") + "\":1,\"a\":\"" + pad + sym("ab\"\\n{}") + "\"}\n{\"a\":2}"
	case 5: // a row of small pieces
		s := ""
		for i, k := 0, zzrt.Choice("pieces", n+1); i < k; i++ {
			s += []string{"{}", "{\"a\":1}", "null", "\n", " ", "[]", "1", "}", "]", ",", "{\"a\":", "\"x\""}[zzrt.Choice("piece", 12)]
		}
		return s
	}
	return ""
}

func checkDoc(rec record.Record, want jdoc, how string) {
	all, err := rec.All()
	zzrt.Assert(err == nil && all != nil && jsame(all, want.v), how+": the record does not hold the document")
	for _, k := range []string{"a", "b"} {
		v, err := rec.Get(k)
		zzrt.Assert(err == nil && jsame(v, want.v[k]), how+": a property does not hold its value")
	}
}

// HJson: C14.
func HJson() {
	text := jsonText()
	want := jdocs(text)
	in := newJson(text)
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	n := 0
	var pos []int64
	for ; ; n++ {
		rec, err := next()
		if n < len(want) && want[n].bad {
			zzrt.Assert(err != nil, "malformed content is skipped or cuts the scan")
			zzrt.Reach("malformed")
			break
		}
		if err != nil {
			zzrt.Fail("scanning fails: " + err.Error())
		}
		if rec == nil {
			zzrt.Assert(n == len(want), "the scan ends before the last document")
			rec, err := next()
			zzrt.Assert(rec == nil && err == nil, "after the end, the scan does not keep answering the end")
			break
		}
		zzrt.Assert(n < len(want), "the scan returns more records than there are documents")
		checkDoc(rec, want[n], "scan")
		pos = append(pos, rec.Position())
		zzrt.Assert(pos[n] >= 0 && (n == 0 || pos[n] > pos[n-1]), "the positions do not increase")
		if n == 1 {
			rec, err := in.Get(pos[0])
			zzrt.Assert(err == nil, "fetching during a scan fails")
			zzrt.Assert(rec.Position() == pos[0], "the fetched record has another position")
			checkDoc(rec, want[0], "fetch")
		}
	}
	zzrt.Assert(end() == nil, "ending the scan fails")
	if n > 0 {
		zzrt.Reach("record")
		first := zzrt.Choice("first", n)
		for i := 0; i < 2*n+1; i++ {
			k := first
			if i > 0 && i <= n {
				k = n - i
			} else if i > 0 {
				k = i - n - 1
			}
			rec, err := in.Get(pos[k])
			if err != nil {
				zzrt.Fail("fetching fails: " + err.Error())
			}
			zzrt.Assert(rec.Position() == pos[k], "the fetched record has another position")
			checkDoc(rec, want[k], "fetch")
		}
	}
	zzrt.Assert(in.Close() == nil, "closing the input fails")
	zzrt.Assert(zzrt.OpenFiles() == 0, "files are left open")
}
