// C13: errors and uncaught paths go to the documented handler.
package c13

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC13(t *testing.T) {
	lib.Run(t, "C13",
		lib.Prop{Name: "inbuilt", Quick: 6000, Fn: inbuiltRouter},
		lib.Prop{Name: "simple", Quick: 2000, Fn: simpleRouter},
		lib.Prop{Name: "endings", Quick: 3000, Fn: endings},
		lib.Prop{Name: "no router", Quick: 60, Fn: noRouter},
	)
}

// protocol errors: what is sent and the codes it may be refused with
var malformed = []struct {
	data  string
	codes []int
}{
	{"GET /%zz HTTP/1.1\r\n\r\n", []int{400}},
	{"BREW / HTTP/1.1\r\n\r\n", []int{400, 501}},
	{"GET / HTTP/3.0\r\n\r\n", []int{505}},
	{"GET / HTTP/1.1\r\nnocolon\r\n\r\n", []int{400}},
	{"GET /" + strings.Repeat("a", 70000) + " HTTP/1.1\r\n\r\n", []int{414}},
	{"GET / HTTP/1.1\r\n" + strings.Repeat("a: b\r\n", 60) + "\r\n", []int{431}},
	{"GET / HTTP/1.1\r\nX: " + strings.Repeat("a", 9000) + "\r\n\r\n", []int{431}},
	{"POST / HTTP/1.1\r\nContent-Length: x\r\n\r\n", []int{400}},
}

// HEAD is left out: its responses have no body to recognise the handler by
var anyMethod = []string{"GET", "GET", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

var codePool = []int{0, 404, 405, 400, 501, 505, 414, 431, 418, 500}

type call struct {
	name string
	err  error
	path string
}

type world struct{ calls []call }

func (w *world) handler(name string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		w.calls = append(w.calls, call{name, req.Env.Error, strings.Clone(req.Path)})
		return http.String(req, name)
	}
}

func pass(next inbuilt.Handler, req *http.Request) *http.Response { return next(req) }

type expect struct {
	name  string // "": the default
	codes []int
	err   bool
	path  string
}

func inbuiltRouter(t *rapid.T, c *lib.Case) {
	w := &world{}
	root := inbuilt.New()
	var rt router.Router
	nodes := []*inbuilt.Router{root}
	prefixes := []string{""}
	var extra []string
	if lib.Hit(t) {
		if s := lib.Word(t); lib.Only(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~") && strings.Trim(s, ".") != "" && !strings.HasPrefix(s, "raise") && !strings.HasPrefix(s, "dyn") && !strings.HasPrefix(s, "crowd") {
			extra = []string{"/" + s, "/a/" + s, "/" + s + "/b", "/" + s + "x"}
		}
	}
	for i := rapid.IntRange(0, 2).Draw(t, "ngroups"); i > 0; i-- {
		p := rapid.SampledFrom([]string{"/a", "/b", "/a/b"}).Draw(t, "group")
		parent := rapid.IntRange(0, len(nodes)-1).Draw(t, "parent")
		p = prefixes[parent] + p
		nodes = append(nodes, nodes[parent].Group(p[len(prefixes[parent]):]))
		prefixes = append(prefixes, p)
		c.Logf("Group(%s)", p)
	}
	for k, nd := range nodes {
		// what passes requests on is of no influence
		if rapid.IntRange(0, 3).Draw(t, "middleware") == 0 {
			nd.Use(pass)
			c.Logf("group %q: a middleware", prefixes[k])
		}
		if rapid.IntRange(0, 5).Draw(t, "mutator") == 0 {
			nd.Mutator(func(*http.Request) {})
			c.Logf("group %q: a mutator", prefixes[k])
		}
	}
	known := map[string]bool{}
	for i := rapid.IntRange(0, 4).Draw(t, "nroutes"); i > 0; i-- {
		k := rapid.IntRange(0, len(nodes)-1).Draw(t, "on")
		p := rapid.SampledFrom(append([]string{"/a", "/b", "/c/d", "/known", "/a/b/c", "/"}, extra...)).Draw(t, "route")
		full := prefixes[k] + p
		if full != "/" {
			full = strings.TrimRight(full, "/")
		}
		if known[full] {
			continue
		}
		known[full] = true
		nodes[k].Get(p, w.handler("known "+full))
		c.Logf("Get(%s)", full)
		if rapid.IntRange(0, 3).Draw(t, "more methods") == 0 {
			for _, m := range rapid.SliceOfNDistinct(rapid.SampledFrom([]method.Method{method.HEAD, method.POST, method.PUT, method.DELETE, method.CONNECT, method.OPTIONS, method.TRACE}), 1, 7, rapid.ID[method.Method]).Draw(t, "methods") {
				nodes[k].Route(m, p, w.handler("known otherwise "+full))
			}
		}
	}
	if rapid.Bool().Draw(t, "dynamic") {
		root.Get("/dyn/{x}/end", w.handler("known dyn"))
	}
	// a route raising arbitrary errors into the router
	raised := error(nil)
	root.Post("/raise", func(req *http.Request) *http.Response { return rt.OnError(req, raised) })
	catch := map[string]string{}
	var crowd []string
	for i := rapid.IntRange(0, 6).Draw(t, "ncatchers"); i > 0; i-- {
		k := rapid.IntRange(0, len(nodes)-1).Draw(t, "on")
		p := rapid.SampledFrom(append([]string{"/", "/a", "/a/b", "/ab", "/a/b/c", "/b", "/c", "/known", "/c/", "/a/bc"}, extra...)).Draw(t, "prefix")
		full := prefixes[k] + strings.TrimRight(p, "/")
		if full == "" {
			full = "/"
		}
		if catch[full] != "" {
			continue
		}
		catch[full] = "catcher " + full
		var mws []inbuilt.Middleware
		if rapid.IntRange(0, 4).Draw(t, "catcher's middleware") == 0 {
			mws = append(mws, pass)
		}
		if rapid.IntRange(0, 4).Draw(t, "resource") == 0 {
			nodes[k].Resource("").Use(mws...).Catch(p, w.handler(catch[full]))
			c.Logf("Resource().Use(%d).Catch(%s)", len(mws), full)
			continue
		}
		nodes[k].Catch(p, w.handler(catch[full]), mws...)
		c.Logf("Catch(%s), %d middlewares", full, len(mws))
	}
	if rapid.IntRange(0, 9).Draw(t, "crowd") == 0 {
		// many more, which matter only by being there
		for i := rapid.IntRange(1, 40).Draw(t, "ncrowd"); i > 0; i-- {
			p := fmt.Sprintf("/crowd%d%s", i, strings.Repeat("c", rapid.SampledFrom([]int{0, 1, 2, 3, 5, 100, 245, 250, 300, 600}).Draw(t, "crowd tail")))
			catch[p] = "catcher " + p
			root.Catch(p, w.handler(catch[p]))
			crowd = append(crowd, p)
		}
		c.Logf("Catch(%v)", crowd)
	}
	errs := map[int]string{}
	for i := rapid.IntRange(0, 4).Draw(t, "nerrs"); i > 0; i-- {
		k := rapid.IntRange(0, len(nodes)-1).Draw(t, "on")
		codes := rapid.SliceOfNDistinct(rapid.SampledFrom(codePool), 0, 3, rapid.ID[int]).Draw(t, "codes")
		var sc []status.Code
		name := fmt.Sprintf("error %d %v", i, codes)
		for _, code := range codes {
			sc = append(sc, status.Code(code))
			errs[code] = name
		}
		if len(codes) == 0 {
			errs[0] = name
		}
		nodes[k].RouteError(w.handler(name), sc...)
		c.Logf("RouteError(%v)", codes)
	}
	rt = lib.Quiet{Router: lib.Initialize(t, root)}

	errHandler := func(codes []int) expect {
		names := map[string]bool{}
		e := expect{codes: codes, err: true}
		for _, code := range codes {
			n, ok := errs[code]
			if !ok && code != 405 {
				n = errs[0]
			}
			names[n] = true
			e.name = n
		}
		if len(names) > 1 {
			e.name = "*"
		}
		return e
	}
	k := rapid.IntRange(1, 5).Draw(t, "nreqs")
	var data []byte
	var want []expect
	for i := 0; i < k; i++ {
		p := rapid.SampledFrom(append([]string{"/", "/a", "/a/b", "/ab", "/abc", "/a/bc", "/a/b/c", "/a/b/c/d", "/b", "/b/a", "/c", "/c/d", "/c/d/e", "/cc", "/known", "/known/x",
			"/knownx", "/dyn", "/dyn/1", "/dyn/1/end", "/zzz", "/b/a/b/c", "/a/a", "/a/known/", "/A", "/a/b/"}, extra...)).Draw(t, "path")
		if len(crowd) > 0 && rapid.Bool().Draw(t, "in the crowd") {
			p = rapid.SampledFrom(crowd).Draw(t, "crowd path") + rapid.SampledFrom([]string{"", "x", "/y", "c", "9"}).Draw(t, "below")
		} else if rapid.IntRange(0, 19).Draw(t, "long path") == 0 {
			p = strings.TrimRight(p, "/") + strings.Repeat("/long", rapid.IntRange(1, 200).Draw(t, "nlong"))
		}
		norm := p
		if norm != "/" {
			norm = strings.TrimRight(p, "/")
		}
		e := expect{}
		m := "GET"
		isKnown := known[norm]
		longest := ""
		for prefix := range catch {
			if strings.HasPrefix(norm, prefix) && len(prefix) > len(longest) {
				longest = prefix
			}
		}
		switch {
		case norm == "/dyn/1/end":
			// registered or not: not the point here
			continue
		case isKnown && rapid.IntRange(0, 2).Draw(t, "wrongmethod") == 0:
			m = "PATCH"
			e = errHandler([]int{405})
		case isKnown:
			e = expect{name: "known " + norm, codes: []int{200}}
		case longest != "":
			e = expect{name: catch[longest], codes: []int{200}, path: norm}
			m = rapid.SampledFrom(anyMethod).Draw(t, "unknownmethod")
		default:
			m = rapid.SampledFrom(anyMethod).Draw(t, "unknownmethod")
			e = errHandler([]int{404})
		}
		data = append(data, m+" "+p+" HTTP/1.1\r\n\r\n"...)
		want = append(want, e)
		c.Logf("%s %s", m, p)
	}
	switch rapid.IntRange(0, 3).Draw(t, "ending") {
	case 0:
		bad := rapid.SampledFrom(malformed).Draw(t, "malformed")
		data = append(data, bad.data...)
		want = append(want, errHandler(bad.codes))
		c.Logf("malformed %.60q", bad.data)
	case 1:
		code := rapid.SampledFrom([]int{400, 401, 418, 431, 500, 503}).Draw(t, "raised")
		raised = status.NewError(status.Code(code), "raised")
		e := errHandler([]int{code})
		if rapid.IntRange(0, 3).Draw(t, "foreign") == 0 {
			// anything else is an internal error; the handler for it isn't specified
			raised = errors.New("foreign")
			e = expect{name: "*", codes: []int{500}}
		}
		data = append(data, "POST /raise HTTP/1.1\r\n\r\n"...)
		want = append(want, e)
		c.Logf("raised %v", raised)
	}
	conn := lib.NewConn([][]byte{data})
	if p := lib.Serve(config.Default(), conn, encryption.Plain, rt); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	verify(t, c, conn.Out, want, w.calls)
	if len(catch)+len(errs) > 0 {
		c.NonTrivial(fmt.Sprint(catch, errs, known), string(data))
	}
}

func verify(t *rapid.T, c *lib.Case, out []byte, want []expect, calls []call) {
	finals, _, err := lib.ParseAll(out, nil)
	if err != nil || len(finals) != len(want) {
		c.Failf(t, "%d responses to %d requests, %v: %s", len(finals), len(want), err, lib.Q(out))
	}
	for i, e := range want {
		resp := finals[i]
		switch e.name {
		case "*":
			if len(calls) > 0 {
				calls = calls[1:]
			}
			continue
		case "":
			ok := false
			for _, code := range e.codes {
				ok = ok || resp.Code == code
			}
			if !ok {
				c.Failf(t, "request %d: code %d instead of %v by default; answered by %q", i, resp.Code, e.codes, resp.Body)
			}
			c.Class("default")
			continue
		}
		if len(calls) == 0 || string(resp.Body) != e.name || calls[0].name != e.name {
			c.Failf(t, "request %d: answered by %q instead of %q (calls %+v)", i, resp.Body, e.name, calls)
		}
		call := calls[0]
		calls = calls[1:]
		if e.err {
			var he status.HTTPError
			if !errors.As(call.err, &he) {
				c.Failf(t, "request %d: the error available to the handler is %v", i, call.err)
			}
			ok := false
			for _, code := range e.codes {
				ok = ok || int(he.Code) == code
			}
			if !ok {
				c.Failf(t, "request %d: the error available to the handler is %d %v instead of %v", i, he.Code, he, e.codes)
			}
			c.Class("error handler")
		}
		if e.path != "" {
			if call.path != e.path {
				c.Failf(t, "request %d: the catcher sees path %q", i, call.path)
			}
			c.Class("catcher")
		}
	}
	if len(calls) > 0 {
		c.Failf(t, "more handlers were called: %+v", calls)
	}
}

func simpleRouter(t *rapid.T, c *lib.Case) {
	w := &world{}
	rt := simple.New(simple.Handler(w.handler("handler")), simple.Handler(w.handler("errors"))).Initialize()
	n := rapid.IntRange(0, 4).Draw(t, "nreqs")
	var data []byte
	var want []expect
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Protos: []string{"HTTP/1.1"}, NoConn: true, NoUpgrade: true, Methods: []string{"GET", "POST", "TRACE", "DELETE"}})
		data = append(data, r.Bytes()...)
		want = append(want, expect{name: "handler", codes: []int{200}, path: r.Path})
	}
	if rapid.Bool().Draw(t, "bad") {
		bad := rapid.SampledFrom(malformed).Draw(t, "malformed")
		data = append(data, bad.data...)
		want = append(want, expect{name: "errors", codes: bad.codes, err: true})
	}
	c.Logf("%s", lib.Q(data))
	conn := lib.NewConn([][]byte{data})
	if p := lib.Serve(config.Default(), conn, encryption.Plain, lib.Quiet{Router: rt}); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	verify(t, c, conn.Out, want, w.calls)
	c.NonTrivial(string(data))
}

type ending struct {
	strange  []error
	requests int
	errs     []error
	after    int
	how      []int
}

func (e *ending) OnRequest(req *http.Request) *http.Response {
	if len(e.errs) > 0 {
		e.after++
	}
	_, _ = lib.ReadBody(req, e.how[e.requests%len(e.how)])
	e.requests++
	return http.String(req, "ok")
}

func (e *ending) OnError(req *http.Request, err error) *http.Response {
	e.errs = append(e.errs, err)
	return http.Error(req, err)
}

// router is the ending told by the inbuilt router: the requests are unknown to it, so there
// were errors before.
func (e *ending) router(all bool) router.Router {
	r := inbuilt.New()
	r.RouteError(func(req *http.Request) *http.Response {
		e.OnRequest(req)
		if req.Env.Error != status.ErrNotFound {
			e.strange = append(e.strange, req.Env.Error)
		}
		return http.Error(req, req.Env.Error)
	}, status.NotFound)
	told := func(req *http.Request) *http.Response { return e.OnError(req, req.Env.Error) }
	r.RouteError(told, inbuilt.AllErrors)
	if all {
		r.RouteError(told, status.CloseConnection, status.BadRequest, status.RequestURITooLong)
	}
	return r.Initialize()
}

// endings: however a connection ends, the router is told so exactly once, at last.
func endings(t *rapid.T, c *lib.Case) {
	e := &ending{}
	var data []byte
	closing := false
	for i := rapid.IntRange(0, 3).Draw(t, "nreqs"); i > 0; i-- {
		r := lib.GenReq(t, lib.GenOpts{MaxHeaders: 2, MaxBody: 30, NoUpgrade: true})
		data = append(data, r.Bytes()...)
		e.how = append(e.how, rapid.IntRange(0, 4).Draw(t, "how"))
		if !r.KeepAlive() {
			closing = true
		}
	}
	if len(e.how) == 0 {
		e.how = []int{0}
	}
	var codes []int
	truncated := false
	switch rapid.IntRange(0, 2).Draw(t, "ending") {
	case 0:
		m := rapid.SampledFrom(malformed).Draw(t, "malformed")
		data, codes = append(data, m.data...), m.codes
	case 1:
		if len(data) > 0 {
			data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "truncate")]
			truncated = true
		}
	}
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	conn.End = rapid.SampledFrom([]error{io.EOF, lib.ErrReset, lib.ErrTimeout}).Draw(t, "end")
	conn.WithLast = rapid.Bool().Draw(t, "withlast")
	if rapid.IntRange(0, 2).Draw(t, "writefails") == 0 {
		conn.FailWriteAt = rapid.IntRange(0, 3).Draw(t, "failat")
	}
	var r router.Router = e
	if rapid.Bool().Draw(t, "inbuilt") {
		r = e.router(rapid.Bool().Draw(t, "each"))
		c.Class("inbuilt")
	}
	c.Logf("%s\nclosing %v, malformed %v, truncated %v, ends with %v, write %d fails", lib.Q(data), closing, codes, truncated, conn.End, conn.FailWriteAt)
	if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	if len(e.errs) != 1 || e.after > 0 {
		c.Failf(t, "the router is told %d times (%v) that the connection ends, then served %d requests", len(e.errs), e.errs, e.after)
	}
	if len(e.strange) > 0 {
		c.Failf(t, "the error available to the handler of an unknown path is %v", e.strange)
	}
	switch err := e.errs[0]; {
	case err == status.ErrCloseConnection:
		if codes != nil && !closing && !conn.WriteFailed() && conn.FailWriteAt < 0 {
			c.Failf(t, "a malformed request is reported as %v", err)
		}
	case codes == nil || closing:
		c.Failf(t, "the end of the connection is reported as %v", err)
	default:
		var he status.HTTPError
		if !errors.As(err, &he) || !oneOf(int(he.Code), codes) {
			c.Failf(t, "a malformed request is reported as %v instead of %v", err, codes)
		}
	}
	c.NonTrivial(string(data), conn.End, conn.FailWriteAt, conn.WithLast)
}

func oneOf(n int, ns []int) bool {
	for _, m := range ns {
		if n == m {
			return true
		}
	}
	return false
}

// noRouter: an application served without any router knows no path at all.
func noRouter(t *rapid.T, c *lib.Case) {
	var l net.Listener
	a := indigo.New("127.0.0.1:0").Listen("127.0.0.1:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) {
		var err error
		l, err = net.Listen("tcp", "127.0.0.1:0")
		return l, err
	}})
	started, returned := make(chan struct{}), make(chan error, 1)
	a.OnStart(func() { close(started) })
	var reqs []*lib.Req
	var wire []byte
	var heads []bool
	for i := rapid.IntRange(1, 3).Draw(t, "requests"); i > 0; i-- {
		r := lib.GenReq(t, lib.GenOpts{Conn: []string{"keep-alive"}, Protos: []string{"HTTP/1.1"}, MaxHeaders: 3, NoUpgrade: true})
		if r.Method == "TRACE" {
			r.Method = "GET"
		}
		reqs = append(reqs, r)
		wire = append(wire, r.Bytes()...)
		heads = append(heads, r.Method == "HEAD")
		c.Logf("%s %s", r.Method, r.RawPath)
	}
	go func() {
		var err error
		if p := lib.Catch(func() { err = a.Serve(nil) }); p != "" {
			err = errors.New(p)
		}
		returned <- err
	}()
	select {
	case <-started:
	case err := <-returned:
		c.Failf(t, "serving without a router ended at once: %v", err)
	}
	conn, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		c.Failf(t, "%v", err)
	}
	_ = conn.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := conn.Write(wire); err != nil {
		c.Failf(t, "%v", err)
	}
	_ = conn.(*net.TCPConn).CloseWrite()
	var out bytes.Buffer
	_, _ = io.Copy(&out, conn)
	_ = conn.Close()
	a.Stop()
	if err := <-returned; err != status.ErrShutdown {
		c.Failf(t, "serving returned %v", err)
	}
	finals, _, err := lib.ParseAll(out.Bytes(), heads)
	if err != nil || len(finals) != len(reqs) {
		c.Failf(t, "%d responses to %d requests: %v: %s", len(finals), len(reqs), err, lib.Q(out.Bytes()))
	}
	for i, r := range finals {
		if r.Code != 404 {
			c.Failf(t, "request %d: code %d", i, r.Code)
		}
	}
	c.NonTrivial(string(wire))
}
