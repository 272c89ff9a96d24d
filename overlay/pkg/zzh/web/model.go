package web

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
)

// reply is what a client gets.
type reply struct {
	status  int
	ctype   string
	powered string
	body    string
	aborted bool // the connection ended without a response
}

// roundtrip sends one request to a service through the network.
func roundtrip(address, method, target, ctype, body string) reply {
	conn, err := net.DialTimeout("tcp", strings.TrimPrefix(address, "http://"), 5*time.Second)
	if err != nil {
		return reply{aborted: true}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(10 * time.Second))
	head := method + " " + target + " HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n"
	if ctype != "" {
		head += "Content-Type: " + ctype + "\r\n"
	}
	if body != "" {
		head += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	if _, err := io.WriteString(conn, head+"\r\n"+body); err != nil {
		return reply{aborted: true}
	}
	res, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
	if err != nil {
		return reply{aborted: true}
	}
	defer res.Body.Close()
	b, err := ioutil.ReadAll(res.Body)
	if err != nil {
		return reply{aborted: true}
	}
	return reply{status: res.StatusCode, ctype: res.Header.Get("Content-Type"), powered: res.Header.Get("X-Powered-By"), body: string(b)}
}

// The network, as the symbolic execution sees it: a server is the handler it is given.

type listener struct {
	address string
	server  *http.Server
	ready   chan bool
	down    chan bool
	closed  bool
}

func (l *listener) Accept() (net.Conn, error) { return nil, errors.New("not a real listener") }
func (l *listener) Close() error {
	l.closed = true
	return nil
}
func (l *listener) Addr() net.Addr  { return l }
func (l *listener) Network() string { return "tcp" }
func (l *listener) String() string  { return l.address }

var listeners []*listener

var ports = []string{"40001", "40002", "40003", "40004", "40005", "40006", "40007", "40008"}

//sym:redirect net.Listen
//sym:zero net/http.DefaultServeMux
func modelListen(network, address string) (net.Listener, error) {
	for _, l := range listeners {
		if l.address == address && !l.closed {
			return nil, errors.New("listen tcp " + address + ": bind: address already in use")
		}
	}
	if strings.HasSuffix(address, ":0") {
		address = address[:len(address)-1] + ports[len(listeners)]
	}
	l := &listener{address: address, ready: make(chan bool, 1), down: make(chan bool, 1)}
	listeners = append(listeners, l)
	return l, nil
}

//sym:redirect (*net/http.Server).Serve
func modelServe(s *http.Server, nl net.Listener) error {
	l := nl.(*listener)
	if stopped[s] || l.closed {
		l.closed = true
		return errClosed()
	}
	l.server = s
	l.ready <- true
	<-l.down
	l.closed = true
	return errClosed()
}

func errClosed() error {
	return http.ErrServerClosed
}

func init() {
	http.ErrServerClosed = errors.New("http: Server closed")
}

//sym:redirect (*net/http.Server).ServeTLS
func modelServeTLS(s *http.Server, nl net.Listener, cert, key string) error {
	if _, err := os.ReadFile(cert); err != nil {
		return err // the listener stays open
	}
	if _, err := os.ReadFile(key); err != nil {
		return err
	}
	return errors.New("tls: failed to find any PEM data in certificate input") // no harness has a right one
}

//sym:redirect (*net/http.Server).Close
func modelClose(s *http.Server) error { return modelShutdown(s, nil) }

var stopped = map[*http.Server]bool{}

//sym:redirect (*net/http.Server).Shutdown
func modelShutdown(s *http.Server, ctx interface{}) error {
	errClosed()
	if stopped[s] {
		return nil
	}
	stopped[s] = true
	for _, l := range listeners {
		if l.server == s {
			l.closed = true
			l.down <- true
		}
	}
	return nil
}

//sym:redirect (*github.com/sirupsen/logrus.Entry).WriterLevel
func modelWriterLevel(e *logrus.Entry, level logrus.Level) *io.PipeWriter { return nil }

// response follows net/http: the first status counts, and it is 200 when data comes first.
type response struct {
	header http.Header
	status int
	sent   http.Header
	body   []byte
}

func (r *response) Header() http.Header { return r.header }
func (r *response) WriteHeader(status int) {
	if r.status == 0 {
		r.status = status
		r.sent = http.Header{}
		for k, v := range r.header {
			r.sent[k] = v
		}
	}
}
func (r *response) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, p...)
	return len(p), nil
}

//sym:redirect github.com/rodb-io/rodb/pkg/zzh/web.roundtrip
func modelRoundtrip(address, method, target, ctype, body string) (rep reply) {
	address = strings.TrimPrefix(address, "http://")
	var l *listener
	for _, x := range listeners {
		if x.address == address && !x.closed {
			l = x
		}
	}
	if l == nil {
		return reply{aborted: true}
	}
	<-l.ready
	l.ready <- true
	u, err := url.ParseRequestURI(target)
	if err != nil {
		return reply{status: 400, body: "400 Bad Request"}
	}
	q := &http.Request{Method: method, URL: u, RequestURI: target, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "localhost", Body: ioutil.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Close: true}
	if ctype != "" {
		q.Header["Content-Type"] = []string{ctype}
	}
	w := &response{header: http.Header{}}
	defer func() {
		if e := recover(); e != nil {
			rep = reply{aborted: true} // as net/http does
		}
	}()
	l.server.Handler.ServeHTTP(w, q)
	w.WriteHeader(200)
	rep.status = w.status
	if v := w.sent["Content-Type"]; len(v) > 0 {
		rep.ctype = v[0]
	} else if len(w.body) > 0 {
		rep.ctype = http.DetectContentType(w.body)
	}
	if v := w.sent["X-Powered-By"]; len(v) > 0 {
		rep.powered = v[0]
	}
	if method != "HEAD" {
		rep.body = string(w.body)
	}
	return rep
}

//sym:redirect github.com/rodb-io/rodb/pkg/zzh/web.pause
func modelPause() { runtime.Gosched() }
