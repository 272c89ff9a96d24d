package web

import (
	"errors"
	"io"
	"strings"
	"sync"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"

	"github.com/rodb-io/rodb/pkg/output"
)

// echo answers with its parameters and payload.
type echo struct{ *out }

func (e echo) Handle(params map[string]string, payload []byte, sendError func(error) error, sendSuccess func() io.Writer) error {
	text := e.name + " x=" + params["x"] + " y=" + params["y"] + " " + string(payload)
	if params["y"] == "e" {
		return sendError(errors.New(text))
	}
	w := sendSuccess()
	for _, c := range []string{text[:4], text[4:]} {
		if _, err := w.Write([]byte(c)); err != nil {
			return err
		}
	}
	return nil
}

// HConc: C28, requests to one service run at the same time.
func HConc() {
	kind := "text/a"
	get := echo{&out{name: "get", parsers: parsers()}}
	post := echo{&out{name: "post", kind: &kind, parsers: parsers()}}
	list := output.List{"get": get, "post": post}
	conf := &service.HttpConfig{Name: "http", Http: &service.HttpHttpConfig{}, Routes: []*service.HttpRouteConfig{{Path: "/a/{x}", Output: "get"}, {Path: "/b", Output: "post"}}}
	if err := conf.Validate(map[string]output.Config{"get": nil, "post": nil}, zzkit.Logger()); err != nil {
		zzrt.Fail("a right configuration is refused: " + err.Error())
	}
	s, err := service.NewHttp(conf, list)
	if err != nil {
		zzrt.Fail("starting the service fails: " + err.Error())
	}
	type request struct{ method, target, ctype, body string }
	var all []request
	var want []reply
	for i := 0; i < zzrt.Param("requests", 2); i++ {
		x := zzrt.StringOfN("x", 1, "ab")
		switch zzrt.Choice("request", 4) {
		case 0:
			all = append(all, request{"GET", "/a/" + x + "?y=1", "", ""})
			want = append(want, reply{status: 200, ctype: "application/x-get", body: "get x=" + x + " y=1 "})
		case 1:
			all = append(all, request{"POST", "/b?y=2&x=" + x, kind, x + "!"})
			want = append(want, reply{status: 200, ctype: "application/x-post", body: "post x=" + x + " y=2 " + x + "!"})
		case 2:
			all = append(all, request{"GET", "/a/" + x + "?y=e", "", ""})
			want = append(want, reply{status: 500, body: "{\"error\":\"get x=" + x + " y=e \"}\n"})
		case 3:
			all = append(all, request{"GET", "/c/" + x, "", ""})
			want = append(want, reply{status: 404})
		}
	}
	got := make([]reply, len(all))
	address := s.Address()
	var wg sync.WaitGroup
	zzrt.Races(true)
	zzrt.Interleave(zzrt.Param("level", 1), zzrt.Param("switches", 1))
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := all[i]
			got[i] = roundtrip(address, r.method, r.target, r.ctype, r.body)
		}(i)
	}
	wg.Wait()
	zzrt.Interleave(0, 0)
	zzrt.Races(false)
	for i, w := range want {
		g := got[i]
		zzrt.Assert(!g.aborted && g.status == w.status, "a request does not get the status it gets alone")
		if w.body != "" {
			zzrt.Assert(zzkit.SameBytes([]byte(strings.TrimSpace(g.body)), []byte(strings.TrimSpace(w.body))), "a request does not get the response it gets alone")
		}
		if w.ctype != "" {
			zzrt.Assert(len(g.ctype) >= len(w.ctype) && g.ctype[:len(w.ctype)] == w.ctype, "a request does not get the type it gets alone")
		}
		zzrt.Reach([]string{"200", "404", "500"}[map[int]int{200: 0, 404: 1, 500: 2}[w.status]])
	}
	s.Close()
	s.Wait()
}

var _ parser.Parser
