// Package conf: loading of configurations (C27).
package conf

import (
	"os"
	"unicode/utf8"

	"github.com/rodb-io/rodb/pkg/config"
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

func must(c bool, what string) { zzrt.Assert(c, "accepted, but "+what) }

// isFile tells if the path leads to a regular file.
func isFile(path string) bool {
	info, err := os.Stat(path)
	return err == nil && !info.IsDir()
}

// wellFormed checks what every accepted configuration guarantees.
func wellFormed(c *config.Config) {
	for _, name := range []string{"string", "integer", "float", "boolean", "json"} {
		must(c.Parsers[name] != nil, "the parser "+name+" is missing")
	}
	must(c.Indexes["default"] != nil, "the default index is missing")
	for name, p := range c.Parsers {
		must(name != "" && p.GetName() == name, "a parser has another name or none")
		switch p := p.(type) {
		case *parser.SplitConfig:
			must(p.Delimiter != nil && p.DelimiterIsRegexp != nil, "a split parser has no delimiter")
			must(!*p.DelimiterIsRegexp || p.DelimiterRegexp != nil, "a regular expression is not compiled")
			steps := 0
			for next := parser.Config(p); steps <= len(c.Parsers); steps++ {
				s, ok := next.(*parser.SplitConfig)
				if !ok {
					break
				}
				next = c.Parsers[s.Parser]
				must(next != nil, "the parser of a split parser does not exist")
			}
			must(steps <= len(c.Parsers), "split parsers lead to themselves")
		case *parser.BooleanConfig:
			must(len(p.TrueValues) > 0 && len(p.FalseValues) > 0, "a boolean parser has no values")
		case *parser.FloatConfig:
			must(p.DecimalSeparator != "", "a float parser has no decimal separator")
		}
	}
	for name, in := range c.Inputs {
		must(name != "" && in.GetName() == name, "an input has another name or none")
		must(in.ShouldDieOnInputChange() || true, "")
		switch in := in.(type) {
		case *input.CsvConfig:
			must(isFile(in.Path) && in.DieOnInputChange != nil, "a csv input has no file or default")
			must(utf8.RuneCountInString(in.Delimiter) == 1, "a csv input has no delimiter")
			must(in.AutodetectColumns == (len(in.Columns) == 0), "a csv input has no columns")
			seen := map[string]bool{}
			for i, col := range in.Columns {
				must(col != nil && col.Name != "" && !seen[col.Name], "a column has no name of its own")
				seen[col.Name] = true
				must(c.Parsers[col.Parser] != nil, "the parser of a column does not exist")
				at, ok := in.ColumnIndexByName[col.Name]
				must(ok && at == i, "a column is not known by its name")
			}
		case *input.JsonConfig:
			must(isFile(in.Path) && in.DieOnInputChange != nil, "a json input has no file or default")
		case *input.XmlConfig:
			must(isFile(in.Path) && in.DieOnInputChange != nil, "an xml input has no file or default")
			must(len(in.Properties) > 0, "an xml input has no properties")
			properties(c, in.Properties)
		}
	}
	for name, ix := range c.Indexes {
		must(name != "" && ix.GetName() == name, "an index has another name or none")
		switch ix := ix.(type) {
		case *index.MapConfig:
			must(c.Inputs[ix.Input] != nil && distinct(ix.Properties), "the input or properties of a map index are wrong")
		case *index.WildcardConfig:
			must(c.Inputs[ix.Input] != nil && distinct(ix.Properties), "the input or properties of a wildcard index are wrong")
			must(ix.Path != "" && ix.IgnoreCase != nil, "a wildcard index has no path or default")
		case *index.Fts5Config:
			must(c.Inputs[ix.Input] != nil && distinct(ix.Properties), "the input or properties of a fts5 index are wrong")
			must(ix.Dsn != "" && ix.Tokenize != "" && ix.Prefix != nil, "a fts5 index has no file or default")
		case *index.SqliteConfig:
			must(c.Inputs[ix.Input] != nil && ix.Dsn != "", "the input or file of a sqlite index is wrong")
			seen := map[string]bool{}
			for _, p := range ix.Properties {
				must(p != nil && p.Name != "" && !seen[p.Name], "a property of a sqlite index has no name of its own")
				seen[p.Name] = true
				must(p.Collate == "BINARY" || p.Collate == "NOCASE" || p.Collate == "RTRIM", "a property of a sqlite index has no collation")
			}
		}
	}
	for name, out := range c.Outputs {
		must(name != "" && out.GetName() == name, "an output has another name or none")
		switch out := out.(type) {
		case *output.JsonArrayConfig:
			must(out.Limit.Default > 0 && out.Limit.Default <= out.Limit.Max, "the limits of an output are wrong")
			must(out.Limit.Parameter != "" && out.Offset.Parameter != "" && out.Limit.Parameter != out.Offset.Parameter, "the limit and offset of an output have no name of their own")
			parameters(c, out.Input, out.Parameters)
			for n := range out.Parameters {
				must(n != out.Limit.Parameter && n != out.Offset.Parameter, "a parameter has the name of the limit or offset")
			}
			relationships(c, out.Relationships)
		case *output.JsonObjectConfig:
			must(len(out.Parameters) > 0, "an object output has no parameters")
			parameters(c, out.Input, out.Parameters)
			relationships(c, out.Relationships)
		}
	}
	for name, s := range c.Services {
		must(name != "" && s.GetName() == name, "a service has another name or none")
		h, ok := s.(*service.HttpConfig)
		if !ok {
			continue
		}
		must(h.Http != nil || h.Https != nil, "a service listens nowhere")
		must(h.Http == nil || h.Http.Listen != "", "a service has no address")
		must(h.Https == nil || h.Https.Listen != "" && isFile(h.Https.CertificatePath) && isFile(h.Https.PrivateKeyPath), "a service has no address or certificate")
		must(h.ErrorsType == "application/json" && len(h.Routes) > 0, "a service has no routes or errors type")
		seen := map[string]bool{}
		for _, r := range h.Routes {
			must(r != nil && r.Path != "" && !seen[r.Path], "a route has no path of its own")
			seen[r.Path] = true
			must(c.Outputs[r.Output] != nil, "the output of a route does not exist")
		}
	}
}

func distinct(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	return true
}

func properties(c *config.Config, all []*input.XmlPropertyConfig) {
	seen := map[string]bool{}
	for _, p := range all {
		must(p != nil && p.Name != "" && !seen[p.Name], "a property has no name of its own")
		seen[p.Name] = true
		property(c, p)
	}
}

func property(c *config.Config, p *input.XmlPropertyConfig) {
	must(p.CompiledXPath != nil, "an xpath is not compiled")
	switch p.Type {
	case input.XmlInputPropertyTypePrimitive:
		must(c.Parsers[p.Parser] != nil, "the parser of a property does not exist")
	case input.XmlInputPropertyTypeArray:
		must(p.Items != nil && p.Parser == "" && len(p.Properties) == 0, "an array property has no items")
		property(c, p.Items)
	case input.XmlInputPropertyTypeObject:
		must(len(p.Properties) > 0 && p.Items == nil && p.Parser == "", "an object property has no properties")
		properties(c, p.Properties)
	default:
		must(false, "a property has an unknown type")
	}
}

func parameters(c *config.Config, in string, all map[string]*parameter.ParameterConfig) {
	must(c.Inputs[in] != nil, "the input of an output does not exist")
	for _, p := range all {
		must(p != nil && p.Property != "", "a parameter has no property")
		must(c.Parsers[p.Parser] != nil && c.Parsers[p.Parser].Primitive(), "the parser of a parameter does not exist or is not primitive")
		handled(c, p.Index, in, p.Property)
	}
}

func relationships(c *config.Config, all map[string]*relationship.RelationshipConfig) {
	for _, r := range all {
		must(r != nil && c.Inputs[r.Input] != nil, "the input of a relationship does not exist")
		must(len(r.Match) > 0, "a relationship matches nothing")
		seen := map[string]bool{}
		for _, m := range r.Match {
			must(m != nil && !seen[m.ChildProperty], "a relationship has two filters on a property")
			seen[m.ChildProperty] = true
			handled(c, m.ChildIndex, r.Input, m.ChildProperty)
		}
		must(r.Sort != nil && (r.IsArray || len(r.Sort) == 0), "a single related object is sorted")
		seen = map[string]bool{}
		for _, s := range r.Sort {
			must(s != nil && s.Ascending != nil && !seen[s.Property], "a relationship is sorted twice by a property")
			seen[s.Property] = true
		}
		relationships(c, r.Relationships)
	}
}

// handled checks that the index exists and can be asked for the property of the input.
func handled(c *config.Config, name, in, property string) {
	must(name != "", "the name of an index is empty")
	switch ix := c.Indexes[name].(type) {
	case nil:
		must(false, "an index does not exist")
	case *index.MapConfig:
		must(ix.Input == in && has(ix.Properties, property), "a map index does not hold the property of the input")
	case *index.WildcardConfig:
		must(ix.Input == in && has(ix.Properties, property), "a wildcard index does not hold the property of the input")
	case *index.Fts5Config:
		must(ix.Input == in && property == "match", "a fts5 index does not hold the property of the input")
	case *index.SqliteConfig:
		found := false
		for _, p := range ix.Properties {
			found = found || p.Name == property
		}
		must(ix.Input == in && found, "a sqlite index does not hold the property of the input")
	}
}

func has(all []string, s string) bool {
	for _, x := range all {
		if x == s {
			return true
		}
	}
	return false
}

// load writes the text in a file and loads it.
func load(text string) (*config.Config, error) {
	path := zzrt.Path("rodb.yaml")
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		zzrt.Fail("writing the file")
	}
	var c *config.Config
	var err error
	if how := zzrt.Try(func() { c, err = config.NewConfigFromYamlFile(path, zzkit.Logger().Logger) }); how != "" {
		zzrt.Fail("loading the configuration ends with " + how)
	}
	zzrt.Assert((c == nil) == (err != nil), "neither a configuration nor an error")
	return c, err
}

// start creates the objects of an accepted configuration: whatever is wrong is an error.
func start(c *config.Config) {
	how := zzrt.Try(func() {
		parsers, err := parser.NewFromConfigs(c.Parsers)
		if err != nil {
			return
		}
		for _, p := range parsers {
			p.Parse("1,2")
			p.GetRegexpPattern()
		}
		inputs, err := input.NewFromConfigs(c.Inputs, parsers)
		if err != nil {
			return
		}
		defer input.Close(inputs)
		for _, ix := range c.Indexes {
			switch ix.(type) {
			case *index.SqliteConfig, *index.Fts5Config:
				return // the database engine is not Go code
			}
		}
		indexes, err := index.NewFromConfigs(c.Indexes, inputs)
		if err != nil {
			return
		}
		defer index.Close(indexes)
		outputs, err := output.NewFromConfigs(c.Outputs, inputs, indexes, parsers)
		if err != nil {
			return
		}
		output.Close(outputs)
		zzrt.Reach("started")
	})
	if how != "" {
		zzrt.Fail("starting from an accepted configuration ends with " + how)
	}
}
