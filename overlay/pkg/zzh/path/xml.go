package path

import (
	"os"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

type list = []interface{}
type object = map[string]interface{}

// several stands for an object of which the document has several.
type several struct{}

// times repeats an element; its contents are all different.
func times(label, tag string, max int, content func() (string, interface{})) (string, list) {
	text, values := "", list{}
	for i := zzrt.Choice(label, max+1); i > 0; i-- {
		t, v := content()
		text += "<" + tag + ">" + t + "</" + tag + ">"
		values = append(values, v)
	}
	return text, values
}

func leaf() (string, interface{}) {
	leaves++
	s := string(rune('A' + leaves))
	return s, s
}

func one(values list) interface{} {
	switch len(values) {
	case 0:
		return nil
	case 1:
		return values[0]
	}
	return several{}
}

// walkXml is walk in the properties of an XML record.
func walkXml(v interface{}, path string, more, top bool) (interface{}, int) {
	if _, ok := v.(several); ok {
		return nil, isError
	}
	if !more {
		if hasSeveral(v) {
			return nil, isError
		}
		return v, isValue
	}
	end := 0
	for end < len(path) && path[end] != '.' {
		end++
	}
	step, rest, more := path[:end], "", end < len(path)
	if more {
		rest = path[end+1:]
	}
	switch x := v.(type) {
	case nil:
		return nil, isNullOrError
	case object:
		for k, e := range x {
			if k == step {
				return walkXml(e, rest, more, false)
			}
		}
		if top {
			return nil, isNullOrError
		}
		return nil, isValue
	case list:
		n, huge, ok := number(step)
		if !ok {
			return nil, isError
		}
		if n < 0 || n >= len(x) {
			if huge {
				return nil, isNullOrError
			}
			return nil, isValue
		}
		return walkXml(x[n], rest, more, false)
	}
	return nil, isError
}

func hasSeveral(v interface{}) bool {
	switch x := v.(type) {
	case several:
		return true
	case list:
		for _, e := range x {
			if hasSeveral(e) {
				return true
			}
		}
	case object:
		for _, e := range x {
			if hasSeveral(e) {
				return true
			}
		}
	}
	return false
}

func xmlPath() string {
	if zzrt.Param("len", 0) > 0 {
		return zzrt.StringOf("path", zzrt.Param("len", 0), "lo.01-p")
	}
	p := ""
	for i := zzrt.Choice("steps", zzrt.Param("steps", 3)); i >= 0; i-- {
		p += []string{"l", "o", "s", "0", "1", "-1", "p", "q", "", "x"}[zzrt.Choice("step", 10)]
		if i > 0 {
			p += "."
		}
	}
	return p
}

// HXml: any path in the properties of an XML record, which are lists, objects and values in each other.
func HXml() {
	leaves = -1
	max := zzrt.Param("items", 2)
	value := &input.XmlPropertyConfig{Type: "primitive", Parser: "string", XPath: "string(.)"}
	text, want := "", object{}
	// l: a list of texts; m: a list of lists; o: an object with a text p and a list q of objects; s: a structure in a text
	var properties []*input.XmlPropertyConfig
	t, l := times("list", "v", max, leaf)
	text, want["l"] = text+t, l
	properties = append(properties, &input.XmlPropertyConfig{Type: "array", Name: "l", XPath: "./v", Items: value})
	if zzrt.Param("lists", 0) == 1 {
		t, l = times("lists", "m", max, func() (string, interface{}) { t, l := times("inner list", "n", max, leaf); return t, l })
		text, want["s"] = text+t, l
		properties = append(properties, &input.XmlPropertyConfig{Type: "array", Name: "s", XPath: "./m", Items: &input.XmlPropertyConfig{Type: "array", XPath: "./n", Items: value}})
	} else {
		text, want["s"] = text+"<s>s</s>", list{int64(5), object{"p": nil}}
		properties = append(properties, &input.XmlPropertyConfig{Type: "primitive", Name: "s", Parser: "const", XPath: "string(./s)"})
	}
	t, l = times("object", "o", 2, func() (string, interface{}) {
		t1, v := leaf()
		t2, l := times("inner objects", "q", 1, func() (string, interface{}) {
			t, v := leaf()
			return "<p>" + t + "</p>", object{"p": v}
		})
		return "<p>" + t1 + "</p>" + t2, object{"p": v, "q": l}
	})
	text, want["o"] = text+t, one(l)
	properties = append(properties, &input.XmlPropertyConfig{Type: "object", Name: "o", XPath: "./o", Properties: []*input.XmlPropertyConfig{
		{Type: "primitive", Name: "p", Parser: "string", XPath: "string(./p)"},
		{Type: "array", Name: "q", XPath: "./q", Items: &input.XmlPropertyConfig{Type: "object", XPath: ".", Properties: []*input.XmlPropertyConfig{
			{Type: "primitive", Name: "p", Parser: "string", XPath: "string(./p)"},
		}}},
	}})
	rec := xmlRecord("<r><i>"+text+"</i></r>", properties)
	p := xmlPath()
	got, err := rec.Get(p)
	if p == "" {
		zzrt.Assert(err != nil, "the empty path gives no error")
	} else {
		v, kind := walkXml(want, p, true, true)
		check(got, err, v, kind)
	}
	all, err := rec.All()
	if hasSeveral(want) {
		zzrt.Assert(err != nil, "an object of which there are several gives no error")
	} else {
		zzrt.Assert(err == nil && equal(all, want), "the complete record is wrong")
	}
}

func xmlRecord(text string, properties []*input.XmlPropertyConfig) record.Record {
	c := &input.XmlConfig{Name: "in", Path: zzrt.Path("data.xml"), RecordXPath: "//i", Properties: properties, DieOnInputChange: zzkit.Bool(true)}
	if err := os.WriteFile(c.Path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	sc := &parser.StringConfig{Name: "string"}
	if err := c.Validate(map[string]parser.Config{"string": sc, "const": sc}, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	s, err := parser.NewString(sc)
	if err != nil {
		zzrt.Fail("no string parser")
	}
	in, err := input.NewXml(c, parser.List{"string": s, "const": &constParser{list{int64(5), object{"p": nil}}}})
	if err != nil {
		zzrt.Fail("no input: " + err.Error())
	}
	next, end, err := in.IterateAll()
	if err != nil {
		zzrt.Fail("no scan")
	}
	rec, err := next()
	if rec == nil || err != nil {
		zzrt.Fail("no record")
	}
	end()
	in.Close()
	return rec
}
