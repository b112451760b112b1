// C31: TRACE echoes the request and nothing else.
package c31

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC31(t *testing.T) {
	lib.Run(t, "C31",
		lib.Prop{Name: "sequences", Quick: 6000, Fn: sequences},
		lib.Prop{Name: "interleaved", Quick: 3000, Fn: interleaved},
		lib.Prop{Name: "parallel", Quick: 300, Fn: parallel},
	)
}

type treq struct {
	*lib.Req
	trace bool // expected to be echoed
	own   bool // there is an own handler
}

var routes = []string{"/", "/a", "/a/b", "/long/static/path/of/some/segments"}

func newRouter(dynamic bool, own map[string]bool) router.Router {
	r := inbuilt.New()
	for _, p := range routes {
		r.Get(p, func(req *http.Request) *http.Response { return http.String(req, "get") })
		if own[p] {
			r.Trace(p, func(req *http.Request) *http.Response { return http.String(req, "own") })
		}
	}
	if dynamic {
		r.Post("/dyn/{id}", func(req *http.Request) *http.Response { return http.String(req, "dyn") })
	}
	return lib.Quiet{Router: r.Initialize()}
}

// genReq generates a request for a known path, a TRACE most often.
func genReq(t *rapid.T, dynamic bool, own map[string]bool) *treq {
	paths := routes
	if dynamic {
		paths = append([]string{"/dyn/x", "/dyn/some-longer-value"}, paths...)
		if s := lib.Segment(t); s != "" {
			paths = []string{"/dyn/" + s}
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "kind") == 0 {
		r := lib.GenReq(t, lib.GenOpts{Methods: []string{"GET", "POST"}, Paths: paths, NoConn: true, MaxBody: 40})
		return &treq{Req: r}
	}
	r := lib.GenReq(t, lib.GenOpts{Methods: []string{"TRACE"}, Paths: paths, NoConn: true, NoBody: true, Big: 20})
	if r.Proto == "HTTP/1.0" {
		r.Headers = append(r.Headers, lib.Hdr{Name: "Connection", Pre: " ", Value: "keep-alive"})
	}
	own_ := own[r.Path]
	switch rapid.IntRange(0, 5).Draw(t, "target") {
	case 0: // escape a character
		i := rapid.IntRange(1, len(r.Path)).Draw(t, "escaped")
		if i < len(r.Path) {
			r.RawPath = r.Path[:i] + fmt.Sprintf("%%%02X", r.Path[i]) + r.Path[i+1:]
		}
	case 1: // a trailing slash
		if r.Path != "/" {
			r.RawPath, r.Path = r.Path+"/", r.Path+"/"
		}
	}
	return &treq{Req: r, trace: !own_, own: own_}
}

// judge decides whether the response echoes the request.
func (r *treq) judge(resp *lib.Resp) error {
	if r.own {
		if resp.Code != 200 || string(resp.Body) != "own" {
			return fmt.Errorf("the own TRACE handler isn't used: %d %q", resp.Code, resp.Body)
		}
		return nil
	}
	if !r.trace {
		return nil
	}
	if resp.Code != 200 {
		return fmt.Errorf("TRACE is answered with %d", resp.Code)
	}
	if ct, err := resp.One("Content-Type"); err != nil || ct != "message/http" {
		return fmt.Errorf("TRACE is answered with the type %q (%v)", ct, err)
	}
	line, rest, ok := strings.Cut(string(resp.Body), "\r\n")
	if !ok {
		return fmt.Errorf("the echo has no request line: %q", resp.Body)
	}
	query := ""
	if r.HasQuery && r.Query != "" {
		query = "?" + r.Query
	}
	okLine := false
	for _, p := range []string{r.Path, r.RawPath, trimSlash(r.Path)} {
		okLine = okLine || line == "TRACE "+p+query+" "+r.Proto || line == "TRACE "+p+"?"+" "+r.Proto && query == "" && r.HasQuery
	}
	if !okLine {
		return fmt.Errorf("the request line echoed is %q", line)
	}
	var want strings.Builder
	for _, h := range r.Headers {
		want.WriteString(h.Name + ": " + h.Value + "\r\n")
	}
	got := rest
	if got == want.String()+"\r\n" || got == want.String()+"Content-Length: 0\r\n\r\n" {
		return nil
	}
	return fmt.Errorf("the header lines echoed are %q instead of %q", got, want.String())
}

func genOwn(t *rapid.T) map[string]bool {
	own := map[string]bool{}
	if rapid.IntRange(0, 2).Draw(t, "own handlers") == 0 {
		own[rapid.SampledFrom(routes).Draw(t, "own")] = true
	}
	return own
}

func check(reqs []*treq, out []byte) error {
	heads := make([]bool, len(reqs))
	finals, _, err := lib.ParseAll(out, heads)
	if err != nil {
		return fmt.Errorf("malformed output: %v in %s", err, lib.Q(out))
	}
	if len(finals) != len(reqs) {
		return fmt.Errorf("%d responses to %d requests", len(finals), len(reqs))
	}
	for i, r := range reqs {
		if err := r.judge(finals[i]); err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
	}
	return nil
}

func count(c *lib.Case, reqs []*treq) (key string) {
	n := 0
	for _, r := range reqs {
		if r.trace {
			n++
		}
		key += string(r.Bytes())
	}
	if n > 0 {
		c.NonTrivial(key)
	}
	if n > 1 {
		c.Class("several TRACE requests")
	}
	return key
}

// sequences: several requests of one connection, several connections one after another.
func sequences(t *rapid.T, c *lib.Case) {
	dynamic, own := rapid.Bool().Draw(t, "dynamic"), genOwn(t)
	rt := newRouter(dynamic, own)
	var all []*treq
	for k := rapid.IntRange(1, 3).Draw(t, "connections"); k > 0; k-- {
		var reqs []*treq
		var wire []byte
		for i := rapid.IntRange(1, 4).Draw(t, "requests"); i > 0; i-- {
			r := genReq(t, dynamic, own)
			if r.Proto == "HTTP/1.0" && !r.trace && !r.own {
				r.Headers = append(r.Headers, lib.Hdr{Name: "Connection", Pre: " ", Value: "keep-alive"})
			}
			c.Logf("%q", r.Bytes())
			wire = append(wire, r.Bytes()...)
			reqs = append(reqs, r)
		}
		conn := lib.NewConn(lib.Split(wire, lib.GenCuts(t, len(wire))))
		if msg := lib.Serve(config.Default(), conn, encryption.Plain, rt); msg != "" {
			c.Failf(t, "panic: %s", msg)
		}
		if err := check(reqs, conn.Out); err != nil {
			c.Failf(t, "%v", err)
		}
		all = append(all, reqs...)
	}
	count(c, all)
}

// interleaved: another connection of the same router is served between the moments the response is
// rendered and sent.
func interleaved(t *rapid.T, c *lib.Case) {
	dynamic, own := rapid.Bool().Draw(t, "dynamic"), genOwn(t)
	inner := newRouter(dynamic, own)
	outerReq, nestedReq := genReq(t, dynamic, own), genReq(t, dynamic, own)
	c.Logf("outer %q", outerReq.Bytes())
	c.Logf("nested %q", nestedReq.Bytes())
	nested := lib.NewConn([][]byte{nestedReq.Bytes()})
	rt := hooked{inner, func() {
		if msg := lib.Serve(config.Default(), nested, encryption.Plain, inner); msg != "" {
			c.Failf(t, "panic: %s", msg)
		}
	}}
	outer := lib.NewConn([][]byte{outerReq.Bytes()})
	if msg := lib.Serve(config.Default(), outer, encryption.Plain, rt); msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	if err := check([]*treq{outerReq}, outer.Out); err != nil {
		c.Failf(t, "outer: %v", err)
	}
	if err := check([]*treq{nestedReq}, nested.Out); err != nil {
		c.Failf(t, "nested: %v", err)
	}
	count(c, []*treq{outerReq, nestedReq})
}

type hooked struct {
	router.Router
	hook func()
}

func (h hooked) OnRequest(req *http.Request) *http.Response {
	resp := h.Router.OnRequest(req)
	h.hook()
	return resp
}

// parallel: many connections at once.
func parallel(t *rapid.T, c *lib.Case) {
	dynamic, own := rapid.Bool().Draw(t, "dynamic"), genOwn(t)
	rt := newRouter(dynamic, own)
	n := rapid.IntRange(2, 6).Draw(t, "connections")
	reqs := make([][]*treq, n)
	conns := make([]*lib.Conn, n)
	msgs := make([]string, n)
	var all []*treq
	for k := range reqs {
		distinct := rapid.IntRange(1, 3).Draw(t, "requests")
		var base []*treq
		for i := 0; i < distinct; i++ {
			r := genReq(t, dynamic, own)
			if r.Proto == "HTTP/1.0" && !r.trace && !r.own {
				r.Headers = append(r.Headers, lib.Hdr{Name: "Connection", Pre: " ", Value: "keep-alive"})
			}
			base = append(base, r)
			c.Logf("connection %d: %q", k, r.Bytes())
		}
		all = append(all, base...)
		var segs [][]byte
		for i := 0; i < 40; i++ {
			r := base[i%distinct]
			reqs[k] = append(reqs[k], r)
			segs = append(segs, r.Bytes())
		}
		conns[k] = lib.NewConn(segs)
	}
	var wg sync.WaitGroup
	for k := range conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			msgs[k] = lib.Serve(config.Default(), conns[k], encryption.Plain, rt)
		}()
	}
	wg.Wait()
	for k := range conns {
		if msgs[k] != "" {
			c.Failf(t, "panic: %s", msgs[k])
		}
		if err := check(reqs[k], conns[k].Out); err != nil {
			c.Failf(t, "connection %d: %v", k, err)
		}
	}
	count(c, all)
}

func trimSlash(p string) string {
	if t := strings.TrimRight(p, "/"); t != "" {
		return t
	}
	return "/"
}
