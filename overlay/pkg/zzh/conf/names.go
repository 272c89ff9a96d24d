package conf

import (
	"os"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// HNames: C27, every name and reference is any of a few characters.
func HNames() {
	prepare()
	alphabet := []string{"ab", "abc", "abcd"}[zzrt.Param("names", 2)-2]
	name := func(label string) string { return zzrt.StringOfN(label, 1, alphabet) }
	q := func(s string) string { return "'" + s + "'" }
	and, or := zzrt.And, zzrt.Or
	head := "inputs: [{name: 'a', type: json, path: $FILE}]\n"
	text, ok := "", true
	switch kind := zzrt.Choice("kind", 8); kind {
	case 0: // parsers
		p0, p1, p2, r0, r1 := name("p0"), name("p1"), name("p2"), name("r0"), name("r1")
		text = "parsers: [{name: " + q(p0) + ", type: split, delimiter: x, parser: " + q(r0) + "}, {name: " + q(p1) + ", type: integer}, {name: " + q(p2) + ", type: split, delimiter: y, parser: " + q(r1) + "}]"
		// the chains end in the only parser that is not a split one
		ok = and(p0 != p1, p0 != p2, p1 != p2, or(and(r0 == p1, or(r1 == p1, r1 == p0)), and(r0 == p2, r1 == p1)))
	case 1: // inputs and their parsers
		p0, i0, i1, c0, c1, r0, r1 := name("p0"), name("i0"), name("i1"), name("c0"), name("c1"), name("r0"), name("r1")
		text = "parsers: [{name: " + q(p0) + ", type: json}]\ninputs: [{name: " + q(i0) + ", type: csv, path: $FILE, columns: [{name: " + q(c0) + ", parser: " + q(r0) + "}, {name: " + q(c1) + "}]}, {name: " + q(i1) + ", type: xml, path: $FILE, recordXpath: //i, properties: [{name: x, xpath: b, parser: string}, {name: z, xpath: b, type: array, items: {xpath: b, parser: " + q(r1) + "}}]}]"
		ok = and(i0 != i1, c0 != c1, r0 == p0, r1 == p0)
	case 2: // the properties of an xml input
		n0, n1, n2, n3 := name("n0"), name("n1"), name("n2"), name("n3")
		text = "inputs: [{name: x, type: xml, path: $FILE, recordXpath: //i, properties: [{name: " + q(n0) + ", xpath: b}, {name: " + q(n1) + ", xpath: b, type: object, properties: [{name: " + q(n2) + ", xpath: b}, {name: " + q(n3) + ", xpath: b}]}]}]"
		ok = and(n0 != n1, n2 != n3)
	case 3: // indexes
		x0, x1, r0, r1, p0, p1 := name("x0"), name("x1"), name("r0"), name("r1"), name("p0"), name("p1")
		kind := zzrt.Choice("index", 3)
		text = head + "indexes: [{name: " + q(x0) + ", type: " + []string{"map", "wildcard, path: $NEW", "fts5, dsn: d"}[kind] + ", input: " + q(r0) + ", properties: [" + q(p0) + ", " + q(p1) + "]}, {name: " + q(x1) + ", type: sqlite, dsn: d, input: " + q(r1) + ", properties: [{name: " + q(p0) + "}, {name: " + q(p1) + "}]}]"
		ok = and(x0 != x1, r0 == "a", r1 == "a", p0 != p1)
	case 4: // parameters
		i0, x0, xi, xp, oi, pp, px := name("i0"), name("x0"), name("xi"), name("xp"), name("oi"), name("pp"), name("px")
		object := []string{"jsonObject", "jsonArray"}[zzrt.Choice("output", 2)]
		ix := zzrt.Choice("index", 4)
		text = "inputs: [{name: 'a', type: json, path: $FILE}, {name: " + q(i0) + ", type: json, path: $FILE}]\nindexes: [{name: " + q(x0) + ", type: " + []string{"map, properties: [" + q(xp) + "]", "sqlite, dsn: d, properties: [{name: " + q(xp) + "}]", "fts5, dsn: d, properties: [" + q(xp) + "]", "wildcard, path: $NEW, properties: [" + q(xp) + "]"}[ix] + ", input: " + q(xi) + "}]\noutputs: [{name: o, type: " + object + ", input: " + q(oi) + ", parameters: {p: {property: " + q(pp) + ", index: " + q(px) + "}}}]"
		ok = and(i0 != "a", or(xi == "a", xi == i0), or(oi == "a", oi == i0), oi == xi, pp == xp, px == x0, ix != 2)
	case 5: // relationships
		i0, xi, xp, r0, mc, mx, s0, s1 := name("i0"), name("xi"), name("xp"), name("r0"), name("mc"), name("mx"), name("s0"), name("s1")
		nested := zzrt.Choice("nested", 2)
		rel := "{r: {input: " + q(r0) + ", isArray: true, sort: [{property: " + q(s0) + "}, {property: " + q(s1) + "}], match: [{parentProperty: x, childProperty: " + q(mc) + ", childIndex: " + q(mx) + "}, {parentProperty: x, childProperty: b, childIndex: default}]}}"
		if nested == 1 {
			rel = "{t: {input: 'a', match: [{parentProperty: x, childProperty: x}], relationships: " + rel + "}}"
		}
		text = "inputs: [{name: 'a', type: json, path: $FILE}, {name: " + q(i0) + ", type: json, path: $FILE}]\nindexes: [{name: 'a', type: map, input: " + q(xi) + ", properties: [" + q(xp) + "]}]\noutputs: [{name: o, type: jsonArray, input: 'a', relationships: " + rel + "}]"
		ok = and(i0 != "a", or(xi == "a", xi == i0), r0 == xi, mc == xp, mc != "b", mx == "a", s0 != s1)
	case 6: // outputs, services and routes
		o0, o1, s0, s1, r0, r1, w0, w1, l, f := name("o0"), name("o1"), name("s0"), name("s1"), name("r0"), name("r1"), name("w0"), name("w1"), name("l"), name("f")
		text = head + "outputs: [{name: " + q(o0) + ", type: jsonArray, input: 'a', limit: {parameter: " + q(l) + "}, offset: {parameter: " + q(f) + "}, parameters: {b: {property: a}}}, {name: " + q(o1) + ", type: jsonArray, input: 'a'}]\nservices: [{name: " + q(s0) + ", type: http, http: {}, routes: [{path: '/" + w0 + "', output: " + q(r0) + "}, {path: '/" + w1 + "', output: " + q(r1) + "}]}, {name: " + q(s1) + ", type: http, http: {}, routes: [{path: /, output: " + q(r1) + "}]}]"
		ok = and(o0 != o1, s0 != s1, or(r0 == o0, r0 == o1), or(r1 == o0, r1 == o1), w0 != w1, l != f, l != "b", f != "b")
	case 7: // the parser of a parameter
		p0, p1, r0 := name("p0"), name("p1"), name("r0")
		object := []string{"jsonObject", "jsonArray"}[zzrt.Choice("output", 2)]
		ix := []string{"", ", index: m", ", index: default"}[zzrt.Choice("index", 3)]
		bad := []string{"split, delimiter: x, parser: integer", "json"}[zzrt.Choice("type", 2)]
		text = "parsers: [{name: " + q(p0) + ", type: " + bad + "}, {name: " + q(p1) + ", type: integer}]\n" + head + "indexes: [{name: m, type: map, input: 'a', properties: [q]}]\noutputs: [{name: o, type: " + object + ", input: 'a', parameters: {p: {property: q, parser: " + q(r0) + ix + "}}}]"
		ok = and(p0 != p1, r0 == p1)
	}
	c, err := load(fill(text))
	if err != nil {
		zzrt.Assert(!ok, "a configuration with right names and references is refused: "+err.Error())
		zzrt.Reach("refused")
		return
	}
	zzrt.Assert(ok, "a configuration with a duplicate name or a dangling reference is accepted")
	zzrt.Reach("accepted")
	wellFormed(c)
	start(c)
}

// HText: C27, parts of the text are any characters.
func HText() {
	prepare()
	alphabet := "~{}[],:&*!|>'\"#%-?<= \na1\\"
	hole := zzrt.StringOfN("hole", zzrt.Choice("len", zzrt.Param("len", 2)+1), alphabet)
	text := []string{"", "parsers: ", "inputs: [", "parsers:\n- ", "parsers: [{type: integer, name: ", "inputs: [{name: i, type: csv, path: $FILE, columns: ", "parsers: [{type: split, delimiter: ", "outputs:\n- name: o\n  type: jsonObject\n  parameters: "}[zzrt.Choice("before", 8)] +
		hole + []string{"", "]", "}]", ", parser: integer, name: p}]", "}]}]"}[zzrt.Choice("after", 5)]
	c, err := load(fill(text))
	if err != nil {
		zzrt.Reach("refused")
		return
	}
	zzrt.Reach("accepted")
	wellFormed(c)
	start(c)
}

// HValues: C27, the values of a configuration arrive where they belong, also from the environment.
func HValues() {
	prepare()
	b := zzrt.StringOfN("b", 1, "xyz")
	os.Setenv("ZZ_A", b)
	os.Unsetenv("ZZ_B")
	limit := zzrt.Choice("limit", 4)
	number := string(rune('0' + limit))
	yes := zzrt.Choice("bool", 2) == 1
	flag := "false"
	if yes {
		flag = "true"
	}
	text := "parsers: [{name: '${ZZ_A}', type: float, decimalSeparator: 'd$ZZ_A', ignoreCharacters: 'i$ZZ_B'}, {name: sp, type: split, delimiter: 's" + b + "', delimiterIsRegexp: " + flag + ", parser: string}, {name: bo, type: boolean, trueValues: [t, '" + b + "'], falseValues: [f]}, {name: st, type: string, convertFromCharset: utf-8}]\n" +
		"inputs: [{name: i" + b + ", type: csv, path: $FILE, delimiter: '" + b + "', dieOnInputChange: " + flag + ", ignoreFirstRow: " + flag + ", columns: [{name: c1, parser: integer}, {name: 'c" + b + "'}]}]\n" +
		"indexes: [{name: w, type: wildcard, path: $NEW, input: i" + b + ", ignoreCase: " + flag + ", properties: [c1]}]\n" +
		"outputs: [{name: o, type: jsonArray, input: i" + b + ", limit: {default: " + number + ", max: 3, parameter: 'l" + b + "'}, offset: {parameter: 'o" + b + "'}, parameters: {q: {property: c1, index: w, parser: bo}}, relationships: {r: {input: i" + b + ", isArray: true, limit: " + number + ", sort: [{property: c1, ascending: " + flag + "}], match: [{parentProperty: c1, childProperty: 'c" + b + "'}]}}}]\n"
	c, err := load(fill(text))
	if limit == 0 {
		zzrt.Assert(err != nil, "a default limit above the maximum is accepted")
		zzrt.Reach("refused")
		return
	}
	if err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	wellFormed(c)
	f, ok := c.Parsers[b].(*parser.FloatConfig)
	zzrt.Assert(ok && f.DecimalSeparator == "d"+b && f.IgnoreCharacters == "i", "a value from the environment is lost")
	sp := c.Parsers["sp"].(*parser.SplitConfig)
	zzrt.Assert(*sp.Delimiter == "s"+b && *sp.DelimiterIsRegexp == yes && sp.Parser == "string", "a value of a split parser is lost")
	bo := c.Parsers["bo"].(*parser.BooleanConfig)
	zzrt.Assert(len(bo.TrueValues) == 2 && bo.TrueValues[1] == b && len(bo.FalseValues) == 1 && bo.FalseValues[0] == "f", "a value of a boolean parser is lost")
	zzrt.Assert(c.Parsers["st"].(*parser.StringConfig).ConvertFromCharset == "utf-8", "a value of a string parser is lost")
	d := c.Parsers["boolean"].(*parser.BooleanConfig)
	zzrt.Assert(has(d.TrueValues, "true") && has(d.FalseValues, "false") && c.Parsers["float"].(*parser.FloatConfig).DecimalSeparator == ".", "a default parser has other values")
	in := c.Inputs["i"+b].(*input.CsvConfig)
	zzrt.Assert(in.Delimiter == b && *in.DieOnInputChange == yes && in.ShouldDieOnInputChange() == yes && in.IgnoreFirstRow == yes && !in.AutodetectColumns, "a value of an input is lost")
	zzrt.Assert(len(in.Columns) == 2 && in.Columns[0].Name == "c1" && in.Columns[0].Parser == "integer" && in.Columns[1].Name == "c"+b && in.Columns[1].Parser == "string", "a column is lost")
	w := c.Indexes["w"].(*index.WildcardConfig)
	zzrt.Assert(w.Path == zzrt.Path("new") && w.Input == "i"+b && *w.IgnoreCase == yes && len(w.Properties) == 1 && w.Properties[0] == "c1", "a value of an index is lost")
	o := c.Outputs["o"].(*output.JsonArrayConfig)
	zzrt.Assert(o.Limit.Default == uint(limit) && o.Limit.Max == 3 && o.Limit.Parameter == "l"+b && o.Offset.Parameter == "o"+b && o.Input == "i"+b, "a value of an output is lost")
	zzrt.Assert(o.Parameters["q"].Index == "w" && o.Parameters["q"].Parser == "bo" && o.Parameters["q"].Property == "c1", "a value of a parameter is lost")
	r := o.Relationships["r"]
	zzrt.Assert(r.Input == "i"+b && r.IsArray && r.Limit == uint(limit) && r.Sort[0].Property == "c1" && r.Sort[0].IsAscending() == yes && r.Match[0].ParentProperty == "c1" && r.Match[0].ChildProperty == "c"+b && r.Match[0].ChildIndex == "default", "a value of a relationship is lost")
	zzrt.Reach("accepted")
}
