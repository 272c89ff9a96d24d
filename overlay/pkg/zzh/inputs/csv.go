// Package inputs: CSV (C12, C13), JSON (C14) and XML (C15) inputs.
package inputs

import (
	"encoding/csv"
	"io"
	"os"
	"strings"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// Tag is a parser that marks what it parsed, and refuses one text.
type Tag struct {
	tag    string
	refuse string
}

func (t *Tag) Name() string             { return t.tag }
func (t *Tag) GetRegexpPattern() string { return ".*" }
func (t *Tag) Primitive() bool          { return true }
func (t *Tag) Parse(s string) (interface{}, error) {
	if t.refuse != "" && s == t.refuse {
		return nil, errRefused
	}
	return t.tag + s, nil
}

var errRefused = io.ErrNoProgress // any error that no other code returns

// content of a file: an optional long start, then bytes of the given alphabet.
func content(label string) string {
	n := zzrt.Choice(label+".len", zzrt.Param("len", 4)+1)
	if zzrt.Param("exact", 0) == 1 && n != zzrt.Param("len", 4) {
		zzrt.Assume(false)
	}
	var s string
	switch zzrt.Param("alphabet", 0) {
	case 0:
		s = zzrt.StringOfN(label, n, "a,\"\n\r")
	case 1:
		s = zzrt.StringN(label, n)
	case 2:
		s = zzrt.StringOfN(label, n, "a;\n\"")
	case 3:
		for i := 0; i < n; i++ {
			s += []string{"é", "\n", "§", ",", "\xff", "\ufeff"}[zzrt.Choice(label, 6)]
		}
	case 5:
		s = zzrt.StringOfN(label, n, "ab,\n\"")
	}
	if fill := zzrt.Param("fill", 0); fill > 0 {
		// the symbolic part begins a few bytes before the end of the read buffer
		s = strings.Repeat("x", fill/2) + "\n" + strings.Repeat("y", fill-fill/2-1) + s + "\nz,z\n"
	}
	return s
}

func newCsv(text string, conf *input.CsvConfig, columns int) (*input.Csv, error) {
	path := zzrt.Path("data.csv")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	conf.Name, conf.Path = "in", path
	parsers := parser.List{"string": &Tag{tag: ""}}
	confs := map[string]parser.Config{"string": &parser.StringConfig{Name: "string"}}
	for i := 0; i < columns; i++ {
		name := "c" + string(rune('0'+i))
		confs[name] = &parser.StringConfig{Name: name}
		parsers[name] = &Tag{tag: name + "=", refuse: "!"}
		conf.Columns = append(conf.Columns, &input.CsvColumnConfig{Name: name, Parser: name})
	}
	if err := conf.Validate(confs, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	in, err := input.NewCsv(conf, parsers)
	if err != nil {
		return nil, err
	}
	zzrt.AtEnd(func() { in.Close() })
	return in, nil
}

type row struct {
	fields []string
	err    bool
}

// rows reads the whole text at once, up to the first error.
func rows(text string, comma rune) []row {
	r := csv.NewReader(strings.NewReader(text))
	r.Comma = comma
	r.FieldsPerRecord = -1
	var all []row
	for {
		fields, err := r.Read()
		if err == io.EOF {
			return all
		}
		if err != nil {
			return append(all, row{err: true})
		}
		all = append(all, row{fields: fields})
	}
}

// checkRow compares a record to what its row should give.
func checkRow(rec record.Record, want []string, columns int, how string) {
	for i := 0; i < columns; i++ {
		name := "c" + string(rune('0'+i))
		v, err := rec.Get(name)
		if i >= len(want) {
			zzrt.Assert(err == nil && v == nil, how+": a missing field does not read as null")
			zzrt.Reach("missing field")
			continue
		}
		if want[i] == "!" {
			zzrt.Assert(err != nil, how+": an error of the parser is lost")
			zzrt.Reach("refused value")
			continue
		}
		zzrt.Assert(err == nil, how+": reading a field fails")
		s, ok := v.(string)
		zzrt.Assert(ok && zzkit.SameBytes([]byte(s), []byte(name+"="+want[i])), how+": a column does not hold its own field")
	}
}

// HCsv: C12.
func HCsv() {
	text := content("content")
	conf := &input.CsvConfig{IgnoreFirstRow: zzrt.Param("header", 0) == 1 && zzrt.Bool("ignoreFirstRow"), DieOnInputChange: zzkit.Bool(true)}
	comma := ','
	if zzrt.Param("alphabet", 0) == 2 {
		conf.Delimiter, comma = ";", ';'
	} else if zzrt.Param("alphabet", 0) == 3 && zzrt.Bool("wide delimiter") {
		conf.Delimiter, comma = "§", '§'
	}
	columns := zzrt.Param("columns", 2)
	in, err := newCsv(text, conf, columns)
	if err != nil {
		zzrt.Fail("opening the input fails: " + err.Error())
	}
	want := rows(text, comma)
	if conf.IgnoreFirstRow && len(want) > 0 {
		if want[0].err {
			_, end, err := in.IterateAll()
			zzrt.Assert(err != nil, "an unreadable first row is not reported")
			_ = end
			zzrt.Reach("unreadable header")
			return
		}
		want = want[1:]
	}
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	var pos []record.Position
	var recs []record.Record
	broken := false
	for i := 0; ; i++ {
		rec, err := next()
		if i < len(want) && want[i].err {
			zzrt.Assert(err != nil, "an unreadable row is not reported")
			zzrt.Reach("unreadable row")
			broken = true
			break
		}
		if err != nil {
			zzrt.Fail("scanning fails at a readable row: " + err.Error())
		}
		if rec == nil {
			zzrt.Assert(i == len(want), "the scan ends before the last row")
			break
		}
		zzrt.Assert(i < len(want), "the scan returns more records than there are rows")
		p := rec.Position()
		zzrt.Assert(len(pos) == 0 && p >= 0 || len(pos) > 0 && p > pos[len(pos)-1], "positions do not strictly increase")
		checkRow(rec, want[i].fields, columns, "scan")
		pos = append(pos, p)
		recs = append(recs, rec)
		if zzrt.Param("during", 1) == 1 && i > 0 {
			fetch(in, pos, want, 0, columns) // a lookup while the scan goes on
		}
	}
	if !broken {
		rec, err := next()
		zzrt.Assert(rec == nil && err == nil, "after the end, the scan does not keep answering the end")
	}
	zzrt.Assert(end() == nil, "ending the scan fails")
	for i, rec := range recs {
		// what was read first is not changed by what is read later
		checkRow(rec, want[i].fields, columns, "scan, later")
	}
	if len(pos) > 0 {
		zzrt.Reach("record")
		fetch(in, pos, want, zzrt.Choice("first", len(pos)), columns)
		for i := len(pos) - 1; i >= 0; i-- {
			fetch(in, pos, want, i, columns)
		}
		for i := range pos {
			fetch(in, pos, want, i, columns)
		}
	} else {
		zzrt.Reach("no record")
	}
	zzrt.Assert(in.Close() == nil, "closing the input fails")
	zzrt.Assert(zzrt.OpenFiles() == 0, "files are left open")
}

func fetch(in input.Input, pos []record.Position, want []row, i, columns int) {
	rec, err := in.Get(pos[i])
	if err != nil {
		zzrt.Fail("fetching a scanned position fails: " + err.Error())
	}
	zzrt.Assert(rec != nil && rec.Position() == pos[i], "the fetched record has another position")
	checkRow(rec, want[i].fields, columns, "fetch")
}

// HColumns: C13, one row of any number of fields against any declared columns.
func HColumns() {
	names := []string{"a", "b", "a.b", "a.b.c", "é \"", "A"}
	nc := 1 + zzrt.Choice("columns", zzrt.Param("columns", 3))
	start := zzrt.Choice("first name", len(names))
	conf := &input.CsvConfig{Name: "in", Path: zzrt.Path("data.csv"), DieOnInputChange: zzkit.Bool(true), Logger: zzkit.Logger()}
	parsers := parser.List{"string": &Tag{}}
	confs := map[string]parser.Config{"string": &parser.StringConfig{Name: "string"}}
	tags := []string{}
	for i := 0; i < nc; i++ {
		col := &input.CsvColumnConfig{Name: names[(start+i)%len(names)]}
		tag := ""
		if zzrt.Bool("own parser") {
			tag = "p" + string(rune('0'+i))
			col.Parser = tag
			confs[tag] = &parser.StringConfig{Name: tag}
			parsers[tag] = &Tag{tag: tag, refuse: "!"}
		}
		tags = append(tags, tag)
		conf.Columns = append(conf.Columns, col)
	}
	nf := 1 + zzrt.Choice("fields", zzrt.Param("fields", 4))
	fields := make([]string, nf)
	text := ""
	for i := range fields {
		if i > 0 {
			text += ","
		}
		fields[i] = zzrt.StringOfN("field", zzrt.Choice("field.len", zzrt.Param("len", 1)+1), "x!\n, ")
		text += "\"" + fields[i] + "\""
	}
	if err := os.WriteFile(conf.Path, []byte("k,k\n"+text+"\nl"), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	if zzrt.Choice("twice", zzrt.Param("twice", 2)) == 1 {
		again := *conf.Columns[zzrt.Choice("which", nc)]
		if zzrt.Bool("without parser") {
			again.Parser = ""
		}
		conf.Columns = append(conf.Columns, &again)
		zzrt.Assert(conf.Validate(confs, zzkit.Logger()) != nil, "two columns with the same name are accepted")
		zzrt.Reach("twice")
		return
	}
	if err := conf.Validate(confs, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	in, err := input.NewCsv(conf, parsers)
	if err != nil {
		zzrt.Fail("opening the input fails: " + err.Error())
	}
	zzrt.AtEnd(func() { in.Close() })
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	next()
	rec, err := next()
	if err != nil || rec == nil {
		zzrt.Fail("the row is not found")
	}
	end()
	if zzrt.Bool("fetched") {
		if rec, err = in.Get(rec.Position()); err != nil {
			zzrt.Fail("fetching fails: " + err.Error())
		}
	}
	refused := false
	all, allErr := rec.All()
	for i := 0; i < nc; i++ {
		v, err := rec.Get(conf.Columns[i].Name)
		if i >= nf {
			zzrt.Assert(err == nil && v == nil, "a missing field does not read as null")
			zzrt.Reach("missing field")
		} else if tags[i] != "" && fields[i] == "!" {
			zzrt.Assert(err != nil, "an error of the parser is lost")
			zzrt.Reach("refused value")
			refused = true
			continue
		} else {
			s, ok := v.(string)
			zzrt.Assert(err == nil && ok && zzkit.SameBytes([]byte(s), []byte(tags[i]+fields[i])), "a column does not hold its own field, parsed by its own parser")
		}
		if allErr == nil {
			w, has := all[conf.Columns[i].Name]
			zzrt.Assert(has && (v == nil) == (w == nil), "reading all columns leaves one out")
			if w != nil {
				zzrt.Assert(zzkit.SameBytes([]byte(w.(string)), []byte(v.(string))), "reading all columns at once differs from reading one")
			}
		}
	}
	zzrt.Assert((allErr != nil) == refused, "reading all columns: an error of a parser is lost, or there is one without a reason")
	if allErr == nil {
		zzrt.Assert(len(all) == nc, "reading all columns gives others than the declared ones")
		zzrt.Reach("all columns")
	}
	for _, name := range append([]string{"", "zz", "c", "0", "b.", "a.b.c.d"}, names...) {
		declared := false
		for _, c := range conf.Columns {
			declared = declared || c.Name == name || strings.HasPrefix(name, c.Name+".")
		}
		if !declared {
			v, err := rec.Get(name)
			zzrt.Assert(err != nil && v == nil, "an unknown column is not an error")
		}
	}
}

// HAutodetect: C13, the names come from the header row.
func HAutodetect() {
	header := content("header")
	text := header + "\nv0,v1,v2,v3,v4,v5,v6\n"
	path := zzrt.Path("data.csv")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	conf := &input.CsvConfig{Name: "in", Path: path, AutodetectColumns: true, IgnoreFirstRow: zzrt.Bool("ignoreFirstRow"), DieOnInputChange: zzkit.Bool(true)}
	if zzrt.Bool("empty list of columns") {
		conf.Columns = []*input.CsvColumnConfig{}
	}
	if err := conf.Validate(map[string]parser.Config{"string": &parser.StringConfig{Name: "string"}}, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	in, err := input.NewCsv(conf, parser.List{"string": &Tag{tag: "s="}})
	if err == nil {
		zzrt.AtEnd(func() { in.Close() })
	}
	all := rows(text, ',')
	first := all[0]
	good := !first.err
	for i, f := range first.fields {
		good = good && f != ""
		for _, g := range first.fields[:i] {
			good = good && f != g
		}
	}
	zzrt.Assert((err == nil) == good, "a header is accepted that has an empty or repeated name, or a right one is refused")
	if err != nil {
		zzrt.Reach("refused")
		return
	}
	zzrt.Reach("accepted")
	zzrt.Assert(len(conf.Columns) == len(first.fields), "the number of columns is not the one of the header")
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("scanning fails: " + err.Error())
	}
	want := all
	if conf.IgnoreFirstRow {
		want = all[1:]
	}
	for _, w := range want {
		rec, err := next()
		if w.err {
			zzrt.Assert(err != nil, "an unreadable row is not reported")
			break
		}
		if err != nil || rec == nil {
			zzrt.Fail("a row is not returned")
		}
		if zzrt.Param("fetch", 0) == 1 {
			if rec, err = in.Get(rec.Position()); err != nil {
				zzrt.Fail("fetching fails: " + err.Error())
			}
		}
		vals, err := rec.All()
		zzrt.Assert(err == nil && len(vals) == len(first.fields), "a record does not have the columns of the header")
		for i, name := range first.fields {
			v, err := rec.Get(name)
			if i >= len(w.fields) {
				zzrt.Assert(err == nil && v == nil, "a missing field does not read as null")
				zzrt.Reach("missing field")
				continue
			}
			s, ok := v.(string)
			zzrt.Assert(err == nil && ok && zzkit.SameBytes([]byte(s), []byte("s="+w.fields[i])), "a column does not hold its own field")
		}
		if !conf.IgnoreFirstRow {
			zzrt.Reach("header as data")
		}
	}
	zzrt.Assert(end() == nil, "ending the scan fails")
}
