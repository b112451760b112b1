// C12: middlewares run in the documented order around the right handlers.
package c12

import (
	"fmt"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC12(t *testing.T) {
	lib.Run(t, "C12",
		lib.Prop{Name: "programs", Quick: 6000, Fn: programs},
	)
}

// node is a router, group or resource of the program, and its model.
type node struct {
	parent *node
	r      *inbuilt.Router
	res    *inbuilt.Resource
	prefix string
	mws    []string
}

func (n *node) chain() (c []string) {
	if n == nil {
		return nil
	}
	return append(n.parent.chain(), n.mws...)
}

type endpoint struct {
	path, method string
	node         *node
	own          []string
	name         string
	static       bool // a directory without files
}

// expects tells what a catcher answers.
func (e endpoint) expects() expect {
	if e.static {
		return expect{append(e.node.chain(), e.own...), "", 404}
	}
	return expect{append(e.node.chain(), e.own...), e.name, 200}
}

type expect struct {
	chain []string
	name  string
	code  int
}

type (
	adder    = func(string, inbuilt.Handler, ...inbuilt.Middleware) *inbuilt.Router
	resAdder = func(inbuilt.Handler, ...inbuilt.Middleware) inbuilt.Resource
)

func shorthand(r *inbuilt.Router, m string) adder {
	return map[string]adder{"GET": r.Get, "HEAD": r.Head, "POST": r.Post, "PUT": r.Put, "DELETE": r.Delete,
		"CONNECT": r.Connect, "OPTIONS": r.Options, "TRACE": r.Trace, "PATCH": r.Patch}[m]
}

func resShorthand(r *inbuilt.Resource, m string) resAdder {
	return map[string]resAdder{"GET": r.Get, "HEAD": r.Head, "POST": r.Post, "PUT": r.Put, "DELETE": r.Delete,
		"CONNECT": r.Connect, "OPTIONS": r.Options, "TRACE": r.Trace, "PATCH": r.Patch}[m]
}

type world struct {
	log   []string
	count int
}

func (w *world) mw(name string) inbuilt.Middleware {
	return func(next inbuilt.Handler, req *http.Request) *http.Response {
		w.log = append(w.log, "+"+name)
		defer func() { w.log = append(w.log, "-"+name) }()
		if req.Headers.Value("x-stop") == name {
			return http.String(req, "stopped by "+name)
		}
		resp := next(req)
		return resp.Header("X-Via", name)
	}
}

func (w *world) mws(t *rapid.T, label string, maxN int) (names []string, list []inbuilt.Middleware) {
	k := rapid.IntRange(0, maxN).Draw(t, label)
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("m%d", w.count)
		w.count++
		names = append(names, name)
		list = append(list, w.mw(name))
	}
	return names, list
}

func (w *world) handler(name string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		w.log = append(w.log, "="+name)
		return http.String(req, name)
	}
}

// long is rarely a long addition to a prefix.
func long(t *rapid.T) string {
	if rapid.IntRange(0, 9).Draw(t, "long") != 0 {
		return ""
	}
	return strings.Repeat("y", rapid.IntRange(1, 300).Draw(t, "nlong"))
}

func programs(t *rapid.T, c *lib.Case) {
	w := &world{}
	root := &node{r: inbuilt.New()}
	nodes := []*node{root}
	var eps []endpoint
	var catchers []endpoint
	errs := map[int]string{}
	var common []inbuilt.Middleware
	var commonNames []string
	dyn := rapid.Bool().Draw(t, "dynamic")
	n := rapid.IntRange(1, 16).Draw(t, "nops")
	for i := 0; i < n; i++ {
		nd := rapid.SampledFrom(nodes).Draw(t, "on")
		at := nd.prefix
		if at == "" {
			at = "root"
		}
		switch k := rapid.IntRange(0, 7).Draw(t, "op"); {
		case k <= 1:
			names, list := w.mws(t, "nuse", 3)
			if rapid.IntRange(0, 3).Draw(t, "common") == 0 {
				// the same slice, with space behind, may be given to several routers
				if common == nil {
					names, list := w.mws(t, "ncommon", 2)
					common = append(make([]inbuilt.Middleware, 0, 8), list...)
					commonNames = names
				}
				names, list = commonNames, common
			}
			if nd.res != nil {
				nd.res.Use(list...)
			} else {
				nd.r.Use(list...)
			}
			nd.mws = append(nd.mws, names...)
			c.Logf("%s.Use(%v)", at, names)
		case k == 2 && nd.res == nil:
			prefix := fmt.Sprintf("/g%d", i) + long(t)
			nodes = append(nodes, &node{parent: nd, r: nd.r.Group(prefix), prefix: nd.prefix + prefix})
			c.Logf("%s.Group(%s)", at, prefix)
		case k == 3 && nd.res == nil:
			prefix := fmt.Sprintf("/s%d", i) + long(t)
			res := nd.r.Resource(prefix)
			nodes = append(nodes, &node{parent: nd, res: &res, prefix: nd.prefix + prefix})
			c.Logf("%s.Resource(%s)", at, prefix)
		case k == 4:
			prefix := fmt.Sprintf("/c%d", i)
			full := nd.prefix + prefix
			if rapid.IntRange(0, 2).Draw(t, "whole") == 0 {
				// everything below the node
				whole := max(nd.prefix, "/")
				if !slices.ContainsFunc(catchers, func(e endpoint) bool { return e.path == whole }) {
					prefix, full = "/", whole
				}
			}
			own, list := w.mws(t, "nown", 2)
			name := fmt.Sprintf("catcher%d", i)
			static := nd.res == nil && rapid.IntRange(0, 3).Draw(t, "static") == 0
			if static {
				nd.r.Static(prefix, "/nonexistent-verif-c12", list...)
			} else if nd.res != nil {
				nd.res.Catch(prefix, w.handler(name), list...)
			} else {
				nd.r.Catch(prefix, w.handler(name), list...)
			}
			catchers = append(catchers, endpoint{full, "", nd, own, name, static})
			c.Logf("%s.Catch(%s, %v), static %v", at, prefix, own, static)
		case k == 5 && nd.res == nil:
			code := rapid.SampledFrom(append([]int{0, 404, 405, 400}, failures...)).Draw(t, "code")
			name := fmt.Sprintf("error%d", i)
			nd.r.RouteError(w.handler(name), status.Code(code))
			errs[code] = name
			c.Logf("%s.RouteError(%d)", at, code)
		default:
			m := rapid.SampledFrom(append([]string{"GET", "POST"}, lib.AllMethods...)).Draw(t, "method")
			mm := method.Parse(m)
			short := rapid.Bool().Draw(t, "shorthand")
			path := fmt.Sprintf("/r%d", i)
			own, list := w.mws(t, "nown", 2)
			name := fmt.Sprintf("handler%d", i)
			if nd.res != nil {
				path = ""
				taken := false
				for _, e := range eps {
					taken = taken || e.path == nd.prefix && e.method == m
				}
				if taken {
					continue
				}
				if short {
					resShorthand(nd.res, m)(w.handler(name), list...)
				} else {
					nd.res.Route(mm, w.handler(name), list...)
				}
			} else {
				tmpl := path
				if dyn {
					tmpl += "/{x}"
					path += "/value"
				}
				if short {
					shorthand(nd.r, m)(tmpl, w.handler(name), list...)
				} else {
					nd.r.Route(mm, tmpl, w.handler(name), list...)
				}
			}
			eps = append(eps, endpoint{nd.prefix + path, m, nd, own, name, false})
			c.Logf("%s.%s(%s, %v)", at, m, path, own)
		}
	}
	var r router.Router = lib.Quiet{Router: failing{lib.Initialize(t, root.r)}}

	errName := func(code int) string {
		if e, ok := errs[code]; ok {
			return e
		}
		if code == 405 {
			return "" // has its own default handler
		}
		return errs[0]
	}
	caught := func(path string) (longest endpoint) {
		for _, e := range catchers {
			if strings.HasPrefix(path, e.path) && len(e.path) > len(longest.path) {
				longest = e
			}
		}
		return longest
	}
	var data []byte
	var want []expect
	var heads []bool
	ask := func(e expect, line string) {
		stop := ""
		if len(e.chain) > 0 && rapid.IntRange(0, 3).Draw(t, "stop") == 0 {
			i := rapid.IntRange(0, len(e.chain)-1).Draw(t, "stopat")
			stop = e.chain[i]
			i = slices.Index(e.chain, stop) // which may be there several times
			e.chain, e.name, e.code = e.chain[:i+1], "", 200
		}
		data = append(data, line...)
		heads = append(heads, strings.HasPrefix(line, "HEAD "))
		if stop != "" {
			data = append(data, "X-Stop: "+stop+"\r\n"...)
		}
		data = append(data, "\r\n"...)
		want = append(want, e)
		c.Logf("%q stop %q", line, stop)
	}
	k := rapid.IntRange(1, 6).Draw(t, "nreqs")
	for i := 0; i < k; i++ {
		switch rapid.IntRange(0, 6).Draw(t, "ask") {
		case 0:
			if len(catchers) > 0 {
				e := rapid.SampledFrom(catchers).Draw(t, "catcher")
				path := strings.TrimRight(e.path, "/") + "/unknown"
				e = caught(path)
				ask(e.expects(), "GET "+path+" HTTP/1.1\r\n")
				continue
			}
			fallthrough
		case 1:
			if e := caught("/unknown/path"); e.node != nil {
				ask(e.expects(), "GET /unknown/path HTTP/1.1\r\n")
				continue
			}
			code, name := 404, errName(404)
			if name != "" {
				code = 200
			}
			ask(expect{root.chain(), name, code}, "GET /unknown/path HTTP/1.1\r\n")
		case 6:
			code := rapid.SampledFrom(failures).Draw(t, "failure")
			line := fmt.Sprintf("GET /any HTTP/1.1\r\nX-Fail: %d\r\n", code)
			name := errName(code)
			if name != "" {
				code = 200
			}
			ask(expect{root.chain(), name, code}, line)
		case 2:
			if len(eps) > 0 {
				e := rapid.SampledFrom(eps).Draw(t, "ep")
				code, name := 405, errName(405)
				if name != "" {
					code = 200
				}
				other := ""
				for _, m := range []string{"DELETE", "PATCH", "PUT", "OPTIONS", "POST", "CONNECT", "GET"} {
					if !slices.ContainsFunc(eps, func(x endpoint) bool { return x.path == e.path && x.method == m }) {
						other = m
						break
					}
				}
				if other != "" {
					ask(expect{root.chain(), name, code}, other+" "+e.path+" HTTP/1.1\r\n")
				}
				continue
			}
			fallthrough
		default:
			if len(eps) > 0 {
				e := rapid.SampledFrom(eps).Draw(t, "ep")
				ask(expect{append(e.node.chain(), e.own...), e.name, 200}, e.method+" "+e.path+" HTTP/1.1\r\n")
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "malformed") == 0 {
		m := rapid.SampledFrom(malformed).Draw(t, "malformed")
		code, name := m.code, errName(m.code)
		if name != "" {
			code = 200
		}
		data = append(data, m.text...)
		heads = append(heads, false)
		want = append(want, expect{root.chain(), name, code})
		c.Logf("malformed, %d", m.code)
	}
	conn := lib.NewConn([][]byte{data})
	if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	finals, _, err := lib.ParseAll(conn.Out, heads)
	if err != nil || len(finals) != len(want) {
		c.Failf(t, "%d responses to %d requests, %v", len(finals), len(want), err)
	}
	var wantLog []string
	deepest := 0
	for i, e := range want {
		var via []string
		stopped := e.name == "" && e.code == 200
		for _, m := range e.chain {
			wantLog = append(wantLog, "+"+m)
		}
		if e.name != "" {
			wantLog = append(wantLog, "="+e.name)
		}
		for k := len(e.chain) - 1; k >= 0; k-- {
			wantLog = append(wantLog, "-"+e.chain[k])
			if !(stopped && k == len(e.chain)-1) {
				via = append(via, e.chain[k])
			}
		}
		if got := finals[i].Get("X-Via"); strings.Join(got, ",") != strings.Join(via, ",") {
			c.Failf(t, "request %d: the response passed %q instead of %q", i, got, via)
		}
		if finals[i].Code != e.code {
			c.Failf(t, "request %d: code %d instead of %d", i, finals[i].Code, e.code)
		}
		body := e.name
		if stopped {
			body = "stopped by " + e.chain[len(e.chain)-1]
		}
		if e.code == 200 && !heads[i] && string(finals[i].Body) != body {
			c.Failf(t, "request %d: answered by %q instead of %q", i, finals[i].Body, body)
		}
		deepest = max(deepest, len(e.chain))
	}
	if a, b := strings.Join(w.log, " "), strings.Join(wantLog, " "); a != b {
		c.Failf(t, "calls %s\ninstead of %s", a, b)
	}
	if deepest > 1 {
		c.NonTrivial(string(data), fmt.Sprint(wantLog))
	}
}

// codes of errors other than those a router itself finds.
var failures = []int{401, 403, 408, 409, 413, 414, 415, 418, 421, 429, 431, 500, 501, 502, 503, 504, 505, 511}

var malformed = []struct {
	text string
	code int
}{
	{"GET /%zz HTTP/1.1\r\n\r\n", 400},
	{"BREW / HTTP/1.1\r\n\r\n", 501},
	{"GET / HTTP/3.1\r\n\r\n", 505},
	{"GET / HTTP/1.1\r\n" + strings.Repeat("X: y\r\n", 60) + "\r\n", 431},
	{"GET / HTTP/1.1\r\nX: " + strings.Repeat("y", 100_000) + "\r\n\r\n", 431},
}

// failing passes on errors on behalf of some requests, as anything in front of a router may do.
type failing struct{ router.Router }

func (f failing) OnRequest(req *http.Request) *http.Response {
	if v := req.Headers.Value("X-Fail"); v != "" {
		code, _ := strconv.Atoi(v)
		return f.Router.OnError(req, status.NewError(status.Code(code), "failure"))
	}
	return f.Router.OnRequest(req)
}
