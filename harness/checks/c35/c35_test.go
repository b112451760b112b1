// C35: aliases and mutators act before routing, once per request.
package c35

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC35(t *testing.T) {
	lib.Run(t, "C35",
		lib.Prop{Name: "programs", Quick: 9000, Fn: programs},
	)
}

// op is a step of the program registering things on a router.
type op struct {
	node     int
	kind     int // 0 alias, 1 recording mutator, 2 rewriting mutator
	from, to string
	id       int
}

type route struct {
	node         int
	method, path string
	catch        bool
}

type program struct {
	extra    string   // a word of the dictionary as a path
	prefixes []string // of the nodes, full
	parents  []int
	own      []string // own prefixes of the nodes
	ops      []op     // by nodes, depth first
	routes   []route
}

type call struct {
	name  string
	view  lib.View
	alias string
	param string
}

type mutation struct {
	id   int
	path string
}

// world is one instance of the program.
type world struct {
	rt    router.Router
	calls []call
	muts  []mutation
}

func (w *world) handler(name string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		c := call{name: name, view: lib.CaptureAll(req), alias: strings.Clone(req.Env.AliasFrom), param: strings.Clone(req.Params.Value("p"))}
		w.calls = append(w.calls, c)
		return http.String(req, name+" "+c.param)
	}
}

// failed is the handler of all the errors. A method not allowed has got its own one.
func (w *world) failed(req *http.Request) *http.Response {
	w.calls = append(w.calls, call{name: "error handler", view: lib.CaptureAll(req), alias: strings.Clone(req.Env.AliasFrom)})
	return http.Error(req, req.Env.Error)
}

func (p *program) build(t *rapid.T, aliases bool) *world {
	w := &world{}
	nodes := make([]*inbuilt.Router, len(p.prefixes))
	for i := range p.prefixes {
		if i == 0 {
			nodes[i] = inbuilt.New()
		} else {
			nodes[i] = nodes[p.parents[i]].Group(p.own[i])
		}
		for _, o := range p.ops {
			if o.node != i {
				continue
			}
			switch o.kind {
			case 0:
				if aliases {
					nodes[i].Alias(o.from, o.to)
				}
			case 1:
				nodes[i].Mutator(func(req *http.Request) {
					w.muts = append(w.muts, mutation{o.id, strings.Clone(req.Path)})
				})
			case 2:
				nodes[i].Mutator(func(req *http.Request) {
					if req.Path == o.from {
						req.Path = o.to
					}
				})
			}
		}
	}
	for k, r := range p.routes {
		name := fmt.Sprintf("route %d %s %s%s", k, r.method, p.prefixes[r.node], r.path)
		switch {
		case r.catch:
			nodes[r.node].Catch(r.path, w.handler(name))
		case r.method == "POST":
			nodes[r.node].Post(r.path, w.handler(name))
		default:
			nodes[r.node].Get(r.path, w.handler(name))
		}
	}
	nodes[0].RouteError(w.failed, inbuilt.AllErrors, status.MethodNotAllowed)
	w.rt = lib.Quiet{Router: lib.Initialize(t, nodes[0])}
	return w
}

var targets = []string{"/a", "/b", "/g/a", "/g/b", "/g/h/a", "/", "/dyn/value", "/dyn/other/", "/a/", "/nowhere", "/caught/x", "/g/caught/y", "/b/c"}
var sources = []string{"/s1", "/s2", "/s/three", "/s four", "/caught/src", "/dyn/src", "/S1", "/s"}

func genProgram(t *rapid.T, c *lib.Case) *program {
	p := &program{prefixes: []string{""}, parents: []int{-1}, own: []string{""}}
	// depth first: root, /g, /g/h, /k
	switch rapid.IntRange(0, 3).Draw(t, "groups") {
	case 1:
		p.prefixes, p.parents, p.own = append(p.prefixes, "/g"), append(p.parents, 0), append(p.own, "/g")
	case 2:
		p.prefixes, p.parents, p.own = append(p.prefixes, "/g", "/g/h"), append(p.parents, 0, 1), append(p.own, "/g", "/h")
	case 3:
		p.prefixes, p.parents, p.own = append(p.prefixes, "/g", "/g/h", "/k"), append(p.parents, 0, 1, 0), append(p.own, "/g", "/h", "/k")
	}
	sources, targets := sources, targets
	paths := []string{"/a", "/b", "/b/c", "/", "/dyn/{p}", "/s1", "/caught/", "/m1"}
	if s := lib.Segment(t); s != "" {
		p.extra = "/" + s
		sources = append([]string{p.extra, p.extra, p.extra, p.extra}, sources...)
		targets = append([]string{p.extra, p.extra, p.extra + "/"}, targets...)
		paths = append([]string{p.extra, p.extra}, paths...)
	}
	used := map[string]bool{}
	id := 0
	for node := range p.prefixes {
		for i := rapid.IntRange(0, 4).Draw(t, "ops"); i > 0; i-- {
			o := op{node: node, kind: rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "op")}
			switch o.kind {
			case 0:
				o.from = rapid.SampledFrom(sources).Draw(t, "from")
				if used[p.prefixes[node]+o.from] {
					continue
				}
				used[p.prefixes[node]+o.from] = true
				o.to = rapid.SampledFrom(targets).Draw(t, "to")
				c.Logf("group %q: Alias(%q, %q)", p.prefixes[node], o.from, o.to)
			case 1:
				id++
				o.id = id
				c.Logf("group %q: Mutator %d", p.prefixes[node], id)
			case 2:
				o.from = rapid.SampledFrom([]string{"/m1", "/m2"}).Draw(t, "from")
				o.to = rapid.SampledFrom(targets).Draw(t, "to")
				if rapid.IntRange(0, 5).Draw(t, "to no path") == 0 {
					o.to = rapid.SampledFrom([]string{"", "noslash", "//"}).Draw(t, "odd")
				}
				c.Logf("group %q: Mutator rewriting %q to %q", p.prefixes[node], o.from, o.to)
			}
			p.ops = append(p.ops, o)
		}
	}
	seen := map[string]bool{}
	for i := rapid.IntRange(1, 7).Draw(t, "routes"); i > 0; i-- {
		r := route{node: rapid.IntRange(0, len(p.prefixes)-1).Draw(t, "on"), method: rapid.SampledFrom([]string{"GET", "GET", "POST"}).Draw(t, "method")}
		r.path = rapid.SampledFrom(paths).Draw(t, "path")
		if r.catch = r.path == "/caught/"; r.catch {
			r.method, r.path = "", "/caught"
		}
		key := r.method + p.prefixes[r.node] + strings.TrimRight(r.path, "/")
		if seen[key] {
			continue
		}
		seen[key] = true
		c.Logf("group %q: %s %s", p.prefixes[r.node], r.method, r.path)
		p.routes = append(p.routes, r)
	}
	return p
}

// expected applies the mutators one after another.
func (p *program) expected(path string) (final, alias string, muts []mutation) {
	for _, o := range p.ops {
		switch o.kind {
		case 0:
			if path == p.prefixes[o.node]+o.from {
				alias, path = path, o.to
			}
		case 1:
			muts = append(muts, mutation{o.id, path})
		case 2:
			if path == o.from {
				path = o.to
			}
		}
	}
	return path, alias, muts
}

func serve(w *world, segs [][]byte) (*lib.Conn, string) {
	conn := lib.NewConn(segs)
	return conn, lib.Serve(config.Default(), conn, encryption.Plain, w.rt)
}

func escape(p string) string { return strings.ReplaceAll(p, " ", "%20") }

func programs(t *rapid.T, c *lib.Case) {
	p := genProgram(t, c)
	w := p.build(t, true)
	pool := append([]string{"/m1", "/m2", "/nowhere", "/s1/x", "/s"}, targets...)
	if p.extra != "" {
		pool = append(pool, p.extra, p.extra, p.extra, p.extra+"/")
	}
	for _, o := range p.ops {
		if o.kind == 0 {
			src := p.prefixes[o.node] + o.from
			pool = append(pool, src, src, src, o.from, strings.ToUpper(src), src+"x", src[:len(src)-1])
		}
	}
	var reqs []*lib.Req
	var wire []byte
	for i := rapid.IntRange(1, 4).Draw(t, "requests"); i > 0; i-- {
		r := lib.GenReq(t, lib.GenOpts{Methods: []string{"GET", "GET", "POST", "HEAD"}, Protos: []string{"HTTP/1.1"}, Paths: pool, NoConn: true, MaxHeaders: 2, MaxBody: 20})
		r.RawPath = escape(r.Path)
		c.Logf("%q", r.Bytes())
		reqs = append(reqs, r)
		wire = append(wire, r.Bytes()...)
	}
	conn, msg := serve(w, lib.Split(wire, lib.GenCuts(t, len(wire))))
	if msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	heads := make([]bool, len(reqs))
	for i, r := range reqs {
		heads[i] = r.Method == "HEAD"
	}
	finals, _, err := lib.ParseAll(conn.Out, heads)
	if err != nil || len(finals) != len(reqs) {
		c.Failf(t, "%d responses to %d requests (%v): %s", len(finals), len(reqs), err, lib.Q(conn.Out))
	}
	var wantMuts []mutation
	calls := w.calls
	aliased := false
	for i, r := range reqs {
		final, alias, muts := p.expected(r.Path)
		wantMuts = append(wantMuts, muts...)
		aliased = aliased || alias != ""

		if final == "" {
			// nothing can be registered for it, nor can it be requested directly
			if finals[i].Code != 404 {
				c.Failf(t, "request %d, rewritten to an empty path: %d", i, finals[i].Code)
			}
			if len(calls) == 0 || calls[0].name != "error handler" || calls[0].alias != alias {
				c.Failf(t, "request %d, rewritten to an empty path: the error handler isn't called, or with another alias than %q: %v", i, alias, calls)
			}
			calls = calls[1:]
			continue
		}

		// the same request for the final path, without any alias
		ref := p.build(t, false)
		direct := *r
		direct.Path, direct.RawPath = final, escape(final)
		refConn, msg := serve(ref, [][]byte{direct.Bytes()})
		if msg != "" {
			c.Failf(t, "panic: %s", msg)
		}
		want, _, err := lib.ParseAll(refConn.Out, []bool{heads[i]})
		if err != nil || len(want) != 1 {
			c.Failf(t, "a request for the target: %v in %s", err, lib.Q(refConn.Out))
		}
		got := finals[i]
		if got.Code != want[0].Code || string(got.Body) != string(want[0].Body) {
			c.Failf(t, "request %d for %q: %d %q, a request for %q itself gives %d %q", i, r.Path, got.Code, got.Body, final, want[0].Code, want[0].Body)
		}
		if len(ref.calls) == 0 {
			continue
		}
		if len(calls) == 0 {
			c.Failf(t, "request %d for %q isn't handled, though a request for %q is", i, r.Path, final)
		}
		g, d := calls[0], ref.calls[0]
		calls = calls[1:]
		if g.name != d.name || g.param != d.param {
			c.Failf(t, "request %d for %q: handled by %q (%q) instead of %q (%q)", i, r.Path, g.name, g.param, d.name, d.param)
		}
		if diff := g.view.Diff(d.view); diff != "" {
			c.Failf(t, "request %d for %q: seen by the handler otherwise than a request for %q: %s", i, r.Path, final, diff)
		}
		if g.alias != alias {
			c.Failf(t, "request %d for %q: AliasFrom is %q instead of %q", i, r.Path, g.alias, alias)
		}
	}
	if len(calls) > 0 {
		c.Failf(t, "superfluous calls of handlers: %q", calls[0].name)
	}
	if fmt.Sprint(w.muts) != fmt.Sprint(wantMuts) {
		c.Failf(t, "mutators ran as %v instead of %v (id and path)", w.muts, wantMuts)
	}
	if aliased {
		c.Class("aliased")
	}
	if aliased || len(wantMuts) > 0 {
		c.NonTrivial(string(wire), fmt.Sprint(p.ops), fmt.Sprint(p.routes))
	}
}
