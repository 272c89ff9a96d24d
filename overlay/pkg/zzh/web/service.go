package web

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

var methods = []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "get"}

// mustBeError: the response is a well-formed error.
func mustBeError(rep reply, method string, status int, message string) {
	zzrt.Assert(rep.status == status, fmt.Sprintf("the status of an error is not %v", status))
	zzrt.Assert(strings.HasPrefix(rep.ctype, "application/json"), "an error does not have the type of JSON")
	if method == "HEAD" {
		return
	}
	var m map[string]interface{}
	zzrt.Assert(json.Unmarshal([]byte(rep.body), &m) == nil, "an error is not well-formed JSON")
	s, ok := m["error"].(string)
	zzrt.Assert(ok && s != "", "an error has no message")
	if message != "" {
		zzrt.Assert(zzkit.SameBytes([]byte(s), []byte(message)), "an error does not have its message")
	}
}

// HService: C26.
func HService() {
	kind := "text/a"
	get, post := &out{name: "get"}, &out{name: "post", kind: &kind}
	s := start([]*out{get, post}, &service.HttpRouteConfig{Path: "/get", Output: "get"}, &service.HttpRouteConfig{Path: "/post", Output: "post"}, &service.HttpRouteConfig{Path: "/both", Output: "post"}, &service.HttpRouteConfig{Path: "/both/{x}", Output: "get"})
	for round := 0; round < zzrt.Param("rounds", 2); round++ {
		get.calls, post.calls = 0, 0
		method := methods[zzrt.Choice("method", zzrt.Param("methods", len(methods)))]
		path := []string{"/get", "/post", "/both", "/both/a", "/", "/getx", "//get", "/get/"}[zzrt.Choice("path", zzrt.Param("paths", 8))]
		ctype := ""
		switch zzrt.Choice("content type", zzrt.Param("types", 4)) {
		case 1:
			ctype = kind
		case 2:
			ctype = "text/" + zzrt.StringOfN("type", 1, "abA;")
		case 3:
			ctype = "text/a" + []string{"; charset=utf-8", "b", ";"}[zzrt.Choice("type suffix", 3)]
		}
		body := strings.Repeat("0123456789abcdef", zzrt.Param("long", 0)) + zzrt.StringOf("payload", zzrt.Param("len", 1), "a{\x00\n")
		if method == "GET" || method == "HEAD" {
			body = ""
		}
		message := "failure " + zzrt.StringOfN("message", 1, "a\"\\\n<é"[:5])
		var failure error
		result := zzrt.Choice("result", 4)
		switch result {
		case 1:
			failure = record.RecordNotFoundError
		case 2:
			failure = fmt.Errorf("%v: %w", message, record.RecordNotFoundError)
		case 3:
			failure = errors.New(message)
		}
		answer := func(name string) func(func(error) error, func() io.Writer) error {
			return func(sendError func(error) error, sendSuccess func() io.Writer) error {
				if failure != nil {
					return sendError(failure)
				}
				w := sendSuccess()
				for _, c := range []string{"from ", name} {
					if _, err := w.Write([]byte(c)); err != nil {
						return err
					}
				}
				return nil
			}
		}
		get.answer, post.answer = answer("get"), answer("post")
		rep := roundtrip(s.Address(), method, path, ctype, body)
		zzrt.Assert(!rep.aborted, "a request is not answered")
		var served *out
		switch {
		case method == "GET" && (path == "/get" || path == "/both/a"):
			served = get
		case method == "POST" && ctype == kind && (path == "/post" || path == "/both"):
			served = post
		}
		if served == nil {
			zzrt.Assert(get.calls+post.calls == 0, "a request that no route matches is served")
			mustBeError(rep, method, 404, "")
			zzrt.Reach("unmatched")
			continue
		}
		zzrt.Assert(get.calls+post.calls == 1 && served.calls == 1, "a request is not served exactly once by its output")
		if served == post {
			zzrt.Assert(zzkit.SameBytes([]byte(post.payload), []byte(body)), "the output does not get the payload")
			zzrt.Reach("payload")
		} else {
			zzrt.Assert(get.payload == "", "the output gets a payload that it does not expect")
		}
		switch result {
		case 0:
			zzrt.Assert(rep.status == 200 && rep.body == "from "+served.name, "the response of the output is not returned")
			zzrt.Assert(strings.HasPrefix(rep.ctype, "application/x-"+served.name), "the response does not have the type of the output")
			zzrt.Reach("success")
		case 1, 2:
			mustBeError(rep, method, 404, failure.Error())
			zzrt.Reach("not found")
		case 3:
			mustBeError(rep, method, 500, message)
			zzrt.Reach("failure")
		}
	}
	address := s.Address()
	zzrt.Assert(s.Close() == nil, "closing the service fails")
	zzrt.Assert(s.Wait() == nil, "a service that was closed reports a failure")
	zzrt.Assert(roundtrip(address, "GET", "/get", "", "").aborted, "a service answers after it was closed")
}

// HMessage: C26, for any message.
func HMessage() {
	one := &out{name: "one"}
	s := start([]*out{one}, &service.HttpRouteConfig{Path: "/a", Output: "one"})
	message := zzrt.String("message", zzrt.Param("len", 2))
	one.answer = func(sendError func(error) error, sendSuccess func() io.Writer) error {
		return sendError(errors.New(message))
	}
	rep := roundtrip(s.Address(), "GET", "/a", "", "")
	zzrt.Assert(rep.status == 500 && strings.HasPrefix(rep.ctype, "application/json"), "an error does not have its status and type")
	var m map[string]interface{}
	zzrt.Assert(json.Unmarshal([]byte(rep.body), &m) == nil, "an error is not well-formed JSON")
	got, ok := m["error"].(string)
	zzrt.Assert(ok, "an error has no message")
	plain := true
	for i := 0; i < len(message); i++ {
		plain = zzrt.And(plain, message[i] < 0x80)
	}
	if plain {
		zzrt.Assert(zzkit.SameBytes([]byte(got), []byte(message)), "an error does not have its message")
		zzrt.Reach("plain")
	} else {
		zzrt.Reach("other")
	}
	zzrt.Assert(s.Close() == nil, "closing the service fails")
}

// HStart: C26, services that cannot work.
func HStart() {
	o := &out{name: "one", parsers: parsers()}
	list := map[string]output.Output{"one": o}
	path := "/" + zzrt.StringOf("path", zzrt.Param("len", 4), "a{}x(")
	conf := &service.HttpConfig{Name: "http", ErrorsType: "application/json", Http: &service.HttpHttpConfig{Listen: "127.0.0.1:0"}, Logger: zzkit.Logger(), Routes: []*service.HttpRouteConfig{{Path: path, Output: "one"}}}
	if zzrt.Choice("unknown output", 2) == 1 {
		conf.Routes[0].Output = "two"
	}
	var s *service.Http
	var err error
	how := zzrt.Try(func() { s, err = service.NewHttp(conf, list) })
	zzrt.Assert(how == "", "starting a service crashes")
	if err != nil {
		zzrt.Reach("refused")
		return
	}
	zzrt.Assert(conf.Routes[0].Output == "one", "a service starts without the output of a route")
	rep := roundtrip(s.Address(), "GET", "/aaaa", "", "")
	zzrt.Assert(rep.status == 200 || rep.status == 404, "a service that was started does not answer")
	zzrt.Assert(s.Close() == nil, "closing the service fails")
	zzrt.Reach("started")
}
