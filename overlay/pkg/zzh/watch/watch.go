// Package watch: C30, what happens when a watched input changes.
package watch

import (
	"errors"
	"os"

	"github.com/fsnotify/fsnotify"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/util"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
	"github.com/sirupsen/logrus"
)

// logged counts the messages of a level or a more severe one.
func logged(level logrus.Level) int {
	logs, _ := zzrt.Logs()
	n := 0
	for _, l := range logs {
		if l.Level <= int(level) && len(l.Text) > 0 {
			n++
		}
	}
	return n
}

func exits() int {
	_, codes := zzrt.Logs()
	for _, c := range codes {
		zzrt.Assert(c != 0, "the process ends as if all was well")
	}
	return len(codes)
}

// send delivers an event, and returns when it has been handled: the next one has then been taken.
func send(w *fsnotify.Watcher, e fsnotify.Event) {
	w.Events <- e
	w.Events <- fsnotify.Event{Name: e.Name}
}

// HEvents: any sequence of events and failures of a watcher.
func HEvents() {
	die := zzrt.Bool("die")
	name := zzrt.String("name", zzrt.Param("len", 1))
	w := &fsnotify.Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)}
	logger := zzkit.Recorder()
	util.StartFilesystemWatchProcess(w, die, logger)
	for i := 0; i < zzrt.Param("events", 2); i++ {
		ended, severe, warned := exits(), logged(logrus.FatalLevel), logged(logrus.WarnLevel)
		if zzrt.Choice("failure", 2) == 1 {
			w.Errors <- errors.New("e")
			w.Events <- fsnotify.Event{Name: name}
			zzrt.Assert(exits() == ended, "a failure of the watcher ends the process")
			zzrt.Assert(logged(logrus.WarnLevel) > warned, "a failure of the watcher is not reported")
			zzrt.Reach("failure")
			continue
		}
		op := zzrt.Byte("operation")
		zzrt.Assume(op < 32)
		e := fsnotify.Event{Name: name, Op: fsnotify.Op(op)}
		if zzrt.And(die, op&byte(fsnotify.Write) != 0) {
			w.Events <- e
			zzrt.Settle()
			zzrt.Assert(exits() > ended, "a modification does not end the process")
			zzrt.Assert(logged(logrus.FatalLevel) > severe || logged(logrus.ErrorLevel) > 0, "a modification ends the process without a message")
			zzrt.Reach("ended")
			return
		}
		send(w, e)
		zzrt.Assert(exits() == ended, "an event ends the process although it is not a modification or the option is off")
		zzrt.Reach("continued")
	}
	ended := exits()
	close(w.Events)
	if zzrt.Choice("closed", 2) == 1 {
		close(w.Errors)
	}
	zzrt.Settle()
	zzrt.Assert(exits() == ended, "the end of the watcher ends the process")
	zzrt.Reach("closed")
}

var text = []string{"a,b\n1,2\n", "{\"a\":1}\n{\"a\":2}\n", "<r><i>1</i><i>2</i></r>"}

// open gives an input of a kind whose option is: 0 unset, 1 on, 2 off.
func open(name string, kind, option int, validate bool, logger *logrus.Entry) (input.Input, string) {
	path := zzrt.Path(name)
	if err := os.WriteFile(path, []byte(text[kind]), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	var die *bool
	if option > 0 {
		die = zzkit.Bool(option == 1)
	}
	pc := &parser.StringConfig{Name: "string"}
	p, err := parser.NewString(pc)
	if err != nil {
		zzrt.Fail("no string parser")
	}
	var c input.Config
	switch kind {
	case 0:
		c = &input.CsvConfig{
			Name: name, Path: path, Delimiter: ",", IgnoreFirstRow: true, Logger: logger, DieOnInputChange: die,
			Columns: []*input.CsvColumnConfig{{Name: "a", Parser: "string"}}, ColumnIndexByName: map[string]int{"a": 0},
		}
	case 1:
		c = &input.JsonConfig{Name: name, Path: path, Logger: logger, DieOnInputChange: die}
	case 2:
		c = &input.XmlConfig{
			Name: name, Path: path, RecordXPath: "//i", Logger: logger, DieOnInputChange: die,
			Properties: []*input.XmlPropertyConfig{{Type: "primitive", Name: "a", Parser: "string", XPath: "."}},
		}
	}
	parsers := parser.List{"string": p}
	if validate {
		if err := c.Validate(map[string]parser.Config{"string": pc}, logger); err != nil {
			zzrt.Fail("the configuration is refused: " + err.Error())
		}
	}
	in, err := input.NewFromConfig(c, parsers)
	if err != nil {
		zzrt.Fail("the input cannot be opened: " + err.Error())
	}
	return in, path
}

// use does something with the input, as requests do.
func use(in input.Input) {
	switch zzrt.Choice("use", zzrt.Param("uses", 4)) {
	case 1:
		in.Get(record.Position(0))
	case 2, 3:
		next, end, err := in.IterateAll()
		if err != nil {
			zzrt.Fail("no scan")
		}
		r, err := next()
		for zzrt.Choice("scan", 2) == 1 && r != nil && err == nil {
			r, err = next()
		}
		end()
	}
}

// HInput: the files of 1..2 inputs change before, during and after they are used.
func HInput() {
	n := 1 + zzrt.Choice("inputs", zzrt.Param("inputs", 2))
	logger := zzkit.Recorder()
	ins, paths, options := make([]input.Input, n), make([]string, n), make([]int, n)
	for i := range ins {
		kind := i
		if i == 0 {
			kind = zzrt.Choice("kind", 3)
		}
		options[i] = zzrt.Choice("option", 3)
		ins[i], paths[i] = open("in"+string(rune('0'+i)), kind, options[i], zzrt.Choice("validated", 2) == 1, logger)
	}
	other := zzrt.Path("other")
	os.WriteFile(other, []byte("a"), 0o644)
	closed := make([]bool, n)
	for step := 0; step < zzrt.Param("steps", 2); step++ {
		i := zzrt.Choice("which", n)
		switch zzrt.Choice("step", 4) {
		case 0:
			if !closed[i] {
				use(ins[i])
			}
			zzrt.Assert(exits() == 0, "the process ends although no file has changed")
		case 1:
			ins[i].Close()
			closed[i] = true
			zzrt.Settle()
			zzrt.Assert(exits() == 0, "closing an input ends the process")
		case 2:
			zzrt.Modify(other)
			zzrt.Assert(exits() == 0, "the process ends although another file has changed")
		case 3:
			before := logged(logrus.ErrorLevel)
			zzrt.Modify(paths[i])
			if closed[i] || options[i] == 2 {
				zzrt.Assert(exits() == 0, "a modification ends the process although the option is off or the input closed")
				zzrt.Reach("continued")
				continue
			}
			zzrt.Assert(exits() > 0, "a modification of an input does not end the process")
			zzrt.Assert(logged(logrus.ErrorLevel) > before, "a modification ends the process without a message")
			zzrt.Reach("ended")
			step = zzrt.Param("steps", 2)
		}
	}
	for i := range ins {
		if !closed[i] {
			ins[i].Close()
		}
	}
	zzrt.RecordLogs(false)
}
