// Package handles: C29, the files and watchers that are left open (the databases are in sq, the requests in outs).
package handles

import (
	"os"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func write(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
}

func textParsers() parser.List {
	p, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		zzrt.Fail("no string parser")
	}
	return parser.List{"string": p}
}

// makeInput opens an input of a kind; bad makes its configuration wrong.
func makeInput(kind int, path string, bad bool) (input.Input, error) {
	p := "string"
	if bad {
		p = "other"
	}
	switch kind {
	case 0:
		c := &input.CsvConfig{
			Name: "in", Path: path, Delimiter: ",", Logger: zzkit.Logger(), DieOnInputChange: zzkit.Bool(true),
			Columns: []*input.CsvColumnConfig{{Name: "a", Parser: p}}, ColumnIndexByName: map[string]int{"a": 0},
		}
		if zzrt.Choice("header", 2) == 1 {
			c.IgnoreFirstRow = true
			if zzrt.Choice("autodetect", 2) == 1 {
				c.AutodetectColumns, c.Columns = true, nil
			}
		}
		in, err := input.NewCsv(c, textParsers())
		if err != nil {
			return nil, err
		}
		return in, nil
	case 1:
		in, err := input.NewJson(&input.JsonConfig{Name: "in", Path: path, Logger: zzkit.Logger(), DieOnInputChange: zzkit.Bool(true)})
		if err != nil {
			return nil, err
		}
		return in, nil
	}
	x := "//i"
	if bad {
		x = "//i[" // not an expression
	}
	c := &input.XmlConfig{Name: "in", Path: path, Logger: zzkit.Logger(), DieOnInputChange: zzkit.Bool(true), RecordXPath: x}
	in, err := input.NewXml(c, textParsers())
	if err != nil {
		return nil, err
	}
	return in, nil
}

func document(kind int) string {
	n := zzrt.Param("len", 2)
	switch kind {
	case 0:
		return zzrt.StringOf("text", n, "a,\"\n")
	case 1:
		return "{}" + zzrt.StringOf("text", n, "{}[ ")
	}
	return []string{"", "<r><i/><i>a</i></r>", "<r><i>a</j></r>", "<r><i/><i", "<r><i/></s>", "a"}[zzrt.Choice("text", 6)]
}

// HInput: an input is opened, scanned, read and closed, with at most one failing operation.
func HInput() {
	kind := zzrt.Choice("kind", 3)
	path := zzrt.Path("data")
	exists := zzrt.Choice("file", 2) == 0
	if exists {
		write(path, document(kind))
	}
	files, watchers := zzrt.OpenFiles(), zzrt.OpenWatchers()
	if f := zzrt.Choice("failing operation", zzrt.Param("ops", 14)); f > 0 {
		zzrt.FailAt(f - 1)
	}
	in, err := makeInput(kind, path, zzrt.Choice("configuration", 2) == 1)
	if err != nil {
		zzrt.FailOff()
		zzrt.Assert(zzrt.OpenFiles() == files, "an input that cannot be opened leaves files open")
		zzrt.Assert(zzrt.OpenWatchers() == watchers, "an input that cannot be opened leaves a watcher open")
		zzrt.Reach("refused")
		return
	}
	base := zzrt.OpenFiles()
	if zzrt.Choice("file removed", 2) == 1 {
		os.Remove(path)
	}
	for scan := 0; scan < zzrt.Param("scans", 1); scan++ {
		next, end, err := in.IterateAll()
		if err != nil {
			zzrt.Assert(zzrt.OpenFiles() == base, "a scan that cannot begin leaves files open")
			zzrt.Reach("no scan")
			continue
		}
		stop := zzrt.Choice("records read", 3)
		for i := 0; i < stop; i++ {
			r, err := next()
			if err != nil {
				zzrt.Reach("failed scan")
			}
			if r == nil || err != nil {
				break
			}
		}
		end()
		zzrt.Assert(zzrt.OpenFiles() == base, "a scan leaves files open")
		zzrt.Reach("scan")
	}
	if _, err := in.Get(record.Position(zzrt.Choice("position", 2))); err == nil {
		zzrt.Reach("fetched")
	}
	in.Size()
	in.ModTime()
	zzrt.Assert(zzrt.OpenFiles() == base, "reading a record leaves files open")
	in.Close()
	zzrt.FailOff()
	zzrt.Assert(zzrt.OpenFiles() == files, "a closed input leaves files open")
	zzrt.Assert(zzrt.OpenWatchers() == watchers, "a closed input leaves a watcher open")
	zzrt.Reach("closed")
}

// HInputs: the inputs of a configuration are opened and closed together.
func HInputs() {
	confs := map[string]input.Config{}
	files, watchers := zzrt.OpenFiles(), zzrt.OpenWatchers()
	zzrt.MapOrder(true)
	var paths []string
	for i := 0; i < 1+zzrt.Choice("inputs", zzrt.Param("inputs", 3)); i++ {
		name := "in" + string(rune('0'+i))
		path := zzrt.Path(name)
		if zzrt.Choice("file", 2) == 0 {
			write(path, "{}")
			paths = append(paths, path)
		}
		confs[name] = &input.JsonConfig{Name: name, Path: path, Logger: zzkit.Logger(), DieOnInputChange: zzkit.Bool(true)}
	}
	ins, err := input.NewFromConfigs(confs, parser.List{})
	if err == nil {
		if k := zzrt.Choice("removed", len(paths)+1); k > 0 {
			os.Remove(paths[k-1])
		}
		input.Close(ins)
		zzrt.Reach("closed")
	} else {
		zzrt.Reach("refused")
	}
	zzrt.MapOrder(false)
	zzrt.Assert(zzrt.OpenFiles() == files, "the inputs are closed and leave files open")
	zzrt.Assert(zzrt.OpenWatchers() == watchers, "the inputs are closed and leave watchers open")
}

// HIndex: an index is built or loaded, searched and closed, with at most one failing operation.
func HIndex() {
	in := zzkit.NewInput("in")
	n := zzrt.Choice("records", zzrt.Param("recs", 2)+1)
	for i := 0; i < n; i++ {
		v := map[string]interface{}{}
		switch zzrt.Choice("value", 4) {
		case 0:
			v["p"] = zzrt.StringOfN("text", 1, "ab")
		case 1: // the property does not exist
		case 2:
			v["p"] = int64(1)
		case 3:
			v["p"] = map[string]interface{}{}
		}
		in.Recs = append(in.Recs, &zzkit.Rec{V: v, Pos: record.Position(i)})
	}
	if k := zzrt.Choice("failing input", 6); k > 0 {
		at := 0
		in.Hook = func(what string) error {
			at++
			if at == k {
				return zzkit.ErrInput
			}
			return nil
		}
		in.FailEnd = k == 5
	}
	kind := zzrt.Choice("kind", 3)
	path := zzrt.Path("index")
	files := zzrt.OpenFiles()
	runs := 1
	if kind == 1 {
		runs = 2
		in.SizeV = 10
	}
	for run := 0; run < runs; run++ {
		if kind == 1 {
			switch zzrt.Choice("failing file", 3) {
			case 1:
				if run > 0 {
					zzrt.FailAt(zzrt.Choice("operation", zzrt.Param("ops", 10)))
				}
			case 2:
				if run == 0 {
					zzrt.FaultAt(zzrt.Choice("write", 4), 0, true)
				} else if b, err := os.ReadFile(path); err == nil {
					write(path, string(b[:zzrt.Choice("kept", 3)*len(b)/3]))
				}
			}
		}
		var x index.Index
		var err error
		l := input.List{"in": in}
		switch kind {
		case 0:
			x, err = index.NewMap(&index.MapConfig{Name: "i", Input: "in", Properties: []string{"p"}, Logger: zzkit.Logger()}, l)
		case 1:
			x, err = index.NewWildcard(&index.WildcardConfig{Name: "i", Path: path, Input: "in", Properties: []string{"p"}, IgnoreCase: zzkit.Bool(false), Logger: zzkit.Logger()}, l)
		case 2:
			x = index.NewNoop(&index.NoopConfig{Name: "i", Logger: zzkit.Logger()}, l)
		}
		zzrt.Assert(in.Opened == in.Closed, "building an index leaves a scan of its input open")
		if err != nil {
			zzrt.FailOff()
			if kind == 1 {
				zzrt.FaultsOff()
			}
			zzrt.Assert(zzrt.OpenFiles() == files, "an index that cannot be opened leaves files open")
			zzrt.Reach("refused")
			continue
		}
		base := zzrt.OpenFiles()
		for k := 0; k < 2; k++ {
			it, err := x.GetRecordPositions(in, map[string]interface{}{"p": zzrt.StringOfN("searched", 1, "ab")})
			if err == nil {
				for {
					p, err := it()
					if p == nil || err != nil {
						break
					}
				}
				zzrt.Reach("searched")
			} else {
				zzrt.Reach("failed search")
			}
			zzrt.Assert(in.Opened == in.Closed, "a search that is over leaves a scan of the input open")
			zzrt.Assert(zzrt.OpenFiles() == base, "a search leaves files open")
		}
		x.Close()
		zzrt.FailOff()
		if kind == 1 {
			zzrt.FaultsOff()
		}
		zzrt.Assert(zzrt.OpenFiles() == files, "a closed index leaves files open")
		zzrt.Reach("closed")
	}
}
