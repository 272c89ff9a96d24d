// Package web: the HTTP service (C21 routes, C26 answers).
package web

import (
	"errors"
	"fmt"
	"io"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// out is an output that records how it is called.
type out struct {
	name    string
	kind    *string // of the payload
	parsers map[string]parser.Parser
	answer  func(sendError func(error) error, sendSuccess func() io.Writer) error

	calls   int
	params  map[string]string
	payload string
}

func (o *out) Name() string                 { return o.name }
func (o *out) ExpectedPayloadType() *string { return o.kind }
func (o *out) ResponseType() string         { return "application/x-" + o.name }
func (o *out) HasParameter(name string) bool {
	_, ok := o.parsers[name]
	return ok
}
func (o *out) GetParameterParser(name string) (parser.Parser, error) {
	p, ok := o.parsers[name]
	if !ok {
		return nil, errors.New("no such parameter")
	}
	return p, nil
}
func (o *out) Close() error { return nil }
func (o *out) Handle(params map[string]string, payload []byte, sendError func(error) error, sendSuccess func() io.Writer) error {
	o.calls++
	o.params, o.payload = params, string(payload)
	if o.answer != nil {
		return o.answer(sendError, sendSuccess)
	}
	_, err := sendSuccess().Write([]byte("from " + o.name))
	return err
}

func parsers() map[string]parser.Parser {
	s, err := parser.NewString(&parser.StringConfig{Name: "string"})
	if err != nil {
		zzrt.Fail("no string parser")
	}
	return map[string]parser.Parser{
		"x": s, "y": s,
		"n": parser.NewInteger(&parser.IntegerConfig{Name: "integer", IgnoreCharacters: ","}),
		"f": parser.NewFloat(&parser.FloatConfig{Name: "float", DecimalSeparator: "."}),
		"b": parser.NewBoolean(&parser.BooleanConfig{Name: "boolean", TrueValues: []string{"a", "ab"}, FalseValues: []string{"b", "1."}}),
	}
}

func start(outs []*out, routes ...*service.HttpRouteConfig) *service.Http {
	list := map[string]output.Output{}
	confs := map[string]output.Config{}
	for _, o := range outs {
		if o.parsers == nil {
			o.parsers = parsers()
		}
		list[o.name] = o
		confs[o.name] = nil
	}
	conf := &service.HttpConfig{Name: "http", Http: &service.HttpHttpConfig{}, Routes: routes}
	if err := conf.Validate(confs, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	s, err := service.NewHttp(conf, list)
	if err != nil {
		zzrt.Fail("starting the service fails: " + err.Error())
	}
	return s
}

// part of a route: a literal text or a parameter.
type part struct{ literal, param string }

func parts(path string) []part {
	var l []part
	for path != "" {
		i := 0
		for i < len(path) && path[i] != '{' {
			i++
		}
		if i > 0 {
			l = append(l, part{literal: path[:i]})
			path = path[i:]
			continue
		}
		for i < len(path) && path[i] != '}' {
			i++
		}
		l = append(l, part{param: path[1:i]})
		path = path[i+1:]
	}
	return l
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if (s[i] < '0' || s[i] > '9') && s[i] != ',' {
			return false
		}
	}
	return len(s) > 0
}

func allowed(param, s string) bool {
	switch param {
	case "n":
		for len(s) > 0 && s[0] == ',' {
			if len(s) == 1 {
				return true
			}
			s = s[1:]
		}
		if len(s) > 0 && s[0] == '-' {
			s = s[1:]
		}
		return digits(s)
	case "b":
		return s == "a" || s == "ab" || s == "b" || s == "1."
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return false
		}
	}
	return len(s) > 0
}

// fits: s is made of the given parts in some way.
func fits(l []part, s string) bool {
	if len(l) == 0 {
		return s == ""
	}
	if l[0].param == "" {
		n := len(l[0].literal)
		return len(s) >= n && s[:n] == l[0].literal && fits(l[1:], s[n:])
	}
	for i := len(s); i > 0; i-- {
		if fits(l[1:], s[i:]) && allowed(l[0].param, s[:i]) {
			return true
		}
	}
	return false
}

var routes = []string{
	"/a", "/a.b", "/{x}", "/{x}/{y}", "/a/{n}", "/{n}-{x}", "/{b}{n}", "/a+{x}", "/({x})", "/{n}", "/{b}/{x}", "/", "/{x}{y}", "/[a]{b}$", "/^{x}|{y}", "a", "/a b", "/\\d{n}", "/{x}b", "/%61", "/é{x}",
}

func unhex(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	}
	return 0, false
}

// decode reads percent-encoded text.
func decode(s string, query bool) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, ok1 := unhex(s[i+1])
			l, ok2 := unhex(s[i+2])
			if !ok1 || !ok2 {
				return "", false
			}
			b = append(b, h<<4|l)
			i += 2
		case s[i] == '+' && query:
			b = append(b, ' ')
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// HRoute: C21, one route and any path.
func HRoute() {
	k := zzrt.Param("route", -1)
	if k < 0 {
		k = zzrt.Choice("route", len(routes))
	}
	route := routes[k]
	l := parts(route)
	o := &out{name: "one"}
	s := start([]*out{o}, &service.HttpRouteConfig{Path: route, Output: "one"})
	defer s.Close()
	raw := "/"
	if zzrt.Param("near", 0) == 1 { // a text close to what the route matches
		raw = ""
		for _, p := range l {
			if p.param != "" {
				raw += zzrt.StringOf(p.param, zzrt.Param("len", 2), "ab1-./A")
				continue
			}
			for i := 0; i < len(p.literal); i++ {
				switch c := p.literal[i]; {
				case c == ' ' || c == '%' || c == '|' || c == '^' || c == '\\' || c >= 0x80:
					raw += fmt.Sprintf("%%%02x", c)
				case i > 0 && zzrt.Choice("other character", 2) == 1:
					raw += zzrt.StringOf("literal", 1, "abA./+")
				default:
					raw += string([]byte{c})
				}
			}
		}
		zzrt.Assume(raw != "" && raw[0] == '/')
	} else {
		raw += zzrt.StringOf("path", zzrt.Param("len", 3), []string{"ab1-./,", "ab1-./,()[]$+{}|", "a1%2f0"}[zzrt.Param("alphabet", 0)])
	}
	path, ok := decode(raw, false)
	rep := roundtrip(s.Address(), "GET", raw, "", "")
	if !ok {
		zzrt.Assert(o.calls == 0 && rep.status == 400, "a malformed path is served")
		zzrt.Reach("malformed")
		return
	}
	zzrt.Assert(!rep.aborted, "a request is not answered")
	if !fits(l, path) {
		zzrt.Assert(o.calls == 0, "a path that does not fit the route is served by it")
		zzrt.Assert(rep.status == 404, "an unknown path is not answered as not found")
		zzrt.Reach("no match")
		return
	}
	zzrt.Assert(o.calls == 1, "a path that fits the route is not served by it")
	zzrt.Assert(rep.status == 200 && rep.body == "from one", "the response of the output is not returned")
	rest, n := path, 0
	for i, p := range l {
		if p.param == "" {
			zzrt.Assert(len(rest) >= len(p.literal) && rest[:len(p.literal)] == p.literal, "the parameters do not fit together")
			rest = rest[len(p.literal):]
			continue
		}
		v, ok := o.params[p.param]
		zzrt.Assert(ok, "a parameter of the path is missing")
		zzrt.Assert(allowed(p.param, v), "a parameter has a value that it does not allow")
		zzrt.Assert(len(rest) >= len(v) && rest[:len(v)] == v, "a parameter does not hold its own part of the path")
		rest = rest[len(v):]
		n++
		_ = i
	}
	zzrt.Assert(rest == "", "the parameters do not cover the path")
	zzrt.Assert(len(o.params) == n, "the output gets parameters that are not in the request")
	zzrt.Reach("match")
}

// HQuery: C21, parameters of the query.
func HQuery() {
	o := &out{name: "one"}
	s := start([]*out{o}, &service.HttpRouteConfig{Path: "/{x}", Output: "one"})
	key := zzrt.StringOf("key", zzrt.Param("len", 1), "xyn%26+=")
	value := zzrt.StringOf("value", zzrt.Param("vlen", 3), "ab+%26f")
	second := zzrt.Choice("second", 2) == 1
	target := "/p?" + key + "=" + value
	if second {
		target += "&y=2"
	}
	rep := roundtrip(s.Address(), "GET", target, "", "")
	zzrt.Assert(rep.status == 200 && o.calls == 1, "the request is not served")
	zzrt.Assert(o.params["x"] == "p", "a parameter of the path is replaced")
	zzrt.Assume(key != "" && key[0] != '=')
	eq := 0
	for eq < len(key) && key[eq] != '=' {
		eq++
	}
	if eq < len(key) {
		value = key[eq+1:] + "=" + value
		key = key[:eq]
	}
	k, ok1 := decode(key, true)
	v, ok2 := decode(value, true)
	if ok1 && ok2 {
		if k != "x" {
			zzrt.Assert(o.params[k] == v, "a parameter of the query does not have its value")
			zzrt.Reach("query")
		} else {
			zzrt.Reach("both")
		}
	} else {
		zzrt.Reach("malformed")
	}
	if second && !(ok1 && ok2 && k == "y") {
		zzrt.Assert(o.params["y"] == "2", "a parameter of the query does not have its value")
	}
}

// HFirst: C21, several routes.
func HFirst() {
	a, b := zzrt.Choice("first", len(routes)), zzrt.Choice("second", len(routes))
	zzrt.Assume(a != b)
	one, two := &out{name: "one"}, &out{name: "two"}
	if k := zzrt.Choice("kinds", 2); k == 1 {
		t := "text/a"
		one.kind = &t
	}
	s := start([]*out{one, two}, &service.HttpRouteConfig{Path: routes[a], Output: "one"}, &service.HttpRouteConfig{Path: routes[b], Output: "two"})
	path := "/" + zzrt.StringOf("path", zzrt.Param("len", 2), "ab1-.")
	rep := roundtrip(s.Address(), "GET", path, "", "")
	zzrt.Assert(!rep.aborted, "a request is not answered")
	switch {
	case one.kind == nil && fits(parts(routes[a]), path):
		zzrt.Assert(one.calls == 1 && two.calls == 0 && rep.body == "from one", "the first route that matches does not serve the request")
		zzrt.Reach("first")
	case fits(parts(routes[b]), path):
		zzrt.Assert(one.calls == 0 && two.calls == 1 && rep.body == "from two", "the only route that matches does not serve the request")
		zzrt.Reach("second")
	default:
		zzrt.Assert(one.calls+two.calls == 0 && rep.status == 404, "a request that no route matches is served")
		zzrt.Reach("none")
	}
}
