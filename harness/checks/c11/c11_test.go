// C11: routing picks exactly the registered endpoint.
package c11

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC11(t *testing.T) {
	lib.Run(t, "C11",
		lib.Prop{Name: "tables", Quick: 4000, Fn: func(t *rapid.T, c *lib.Case) { tables(t, c, false) }},
		lib.Prop{Name: "wide tables", Quick: 400, Fn: func(t *rapid.T, c *lib.Case) { tables(t, c, true) }},
		lib.Prop{Name: "templates", Quick: 6000, Fn: templates},
		lib.Prop{Name: "conflicts", Quick: 2000, Fn: conflicts},
	)
}

// segs is a template: "{name}" segments are parameters.
type segs []string

func (s segs) path() string { return "/" + strings.Join(s, "/") }

func isParam(seg string) bool { return strings.HasPrefix(seg, "{") }

type route struct {
	tmpl   segs
	method string
	id     string
}

var methodOf = map[string]method.Method{
	"GET": method.GET, "HEAD": method.HEAD, "POST": method.POST, "PUT": method.PUT, "DELETE": method.DELETE,
	"CONNECT": method.CONNECT, "OPTIONS": method.OPTIONS, "TRACE": method.TRACE, "PATCH": method.PATCH,
}

// table is the reference: templates by path, methods by template.
type table map[string]map[string]string

// match is the reference matcher. ambiguous: taking literal segments first runs into a dead end,
// while another template matches.
func (tb table) match(path string) (tmpl segs, params []string, found, ambiguous bool) {
	if len(path) > 1 {
		path = strings.TrimRight(path, "/")
		if path == "" {
			path = "/"
		}
	}
	var parts []string
	if path != "/" {
		parts = strings.Split(path[1:], "/")
	}
	var all []segs
	for p := range tb {
		s := segs(nil)
		if p != "/" {
			s = strings.Split(p[1:], "/")
		}
		if len(s) != len(parts) {
			continue
		}
		ok := true
		for i := range s {
			if isParam(s[i]) && parts[i] == "" || !isParam(s[i]) && s[i] != parts[i] {
				ok = false
			}
		}
		if ok {
			all = append(all, s)
		}
	}
	if len(all) == 0 {
		return nil, nil, false, false
	}
	// literals first, from the left
	sort.Slice(all, func(i, j int) bool {
		for k := range all[i] {
			if a, b := isParam(all[i][k]), isParam(all[j][k]); a != b {
				return b
			}
		}
		return false
	})
	best := all[0]
	// a dead end: at some parameter of the best template, another one has a literal equal to the part
	for i := range best {
		if !isParam(best[i]) {
			continue
		}
		for p := range tb {
			s := strings.Split(p[1:], "/")
			if len(s) <= i || isParam(s[i]) || s[i] != parts[i] {
				continue
			}
			same := true
			for k := 0; k < i; k++ {
				same = same && s[k] == best[k]
			}
			ambiguous = ambiguous || same
		}
	}
	for i := range best {
		if isParam(best[i]) && best[i] != "{}" {
			params = append(params, best[i][1:len(best[i])-1]+"="+parts[i])
		}
	}
	return best, params, true, ambiguous
}

var words = []string{"a", "b", "c", "ab", "abc", "user", "users", "x.y", "1", "A", "Ab", "api", "v1", "q-w_e~", "ä", "..", "*",
	longWord, longWord + "x", longWord[:len(longWord)-1], longWord[:32], longWord[:64], longWord[:20] + "Z" + longWord[21:]}

// words may be long, too
var longWord = strings.Repeat("a-long-segment.", 5)

func genWord(t *rapid.T) string {
	return lib.WordOr(t, func(s string) bool { return lib.Only(s, nameChars) }, func() string { return rapid.SampledFrom(words).Draw(t, "word") })
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~:@*"

func genTemplates(t *rapid.T, wide bool) []segs {
	// the name of a parameter is determined by what precedes it: others aren't supported
	names := map[string]string{}
	var out []segs
	n := rapid.IntRange(1, 10).Draw(t, "ntemplates")
	for i := 0; i < n; i++ {
		var s segs
		if len(out) > 0 && rapid.Bool().Draw(t, "extend") {
			base := rapid.SampledFrom(out).Draw(t, "base")
			s = append(s, base[:rapid.IntRange(0, len(base)).Draw(t, "keep")]...)
		}
		k := rapid.IntRange(0, 3).Draw(t, "more")
		params := 2
		if rapid.IntRange(0, 15).Draw(t, "long") == 0 {
			k = rapid.IntRange(4, 24).Draw(t, "much more")
			params = rapid.IntRange(0, 2).Draw(t, "literals")
		}
		for j := 0; j < k; j++ {
			if rapid.IntRange(0, params).Draw(t, "param") == 0 {
				at := s.path()
				if names[at] == "" {
					names[at] = rapid.SampledFrom([]string{"{x}", "{name}", "{id}", "{a}", "{}", "{X-1}"}).Draw(t, "pname")
				}
				s = append(s, names[at])
			} else {
				s = append(s, genWord(t))
			}
		}
		out = append(out, s)
	}
	if wide {
		base := rapid.SampledFrom(out).Draw(t, "widebase")
		k := rapid.IntRange(25, 45).Draw(t, "width")
		for i := 0; i < k; i++ {
			s := append(append(segs(nil), base...), fmt.Sprintf("w%d", i))
			if i%5 == 0 {
				s = append(s, "deep")
			}
			out = append(out, s)
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "staticonly") == 0 {
		for _, s := range out {
			for i := range s {
				if isParam(s[i]) {
					s[i] = "p"
				}
			}
		}
	}
	return out
}

type call struct {
	id     string
	params []string
	path   string
	method string
}

type world struct{ calls []call }

func (w *world) handler(id string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		c := call{id: id, path: strings.Clone(req.Path), method: req.Method.String()}
		for _, p := range req.Params.Unwrap() {
			c.params = append(c.params, strings.Clone(p.Key)+"="+strings.Clone(p.Value))
		}
		w.calls = append(w.calls, c)
		return http.String(req, id)
	}
}

func register(r *inbuilt.Router, shortcut bool, m, path string, h inbuilt.Handler) {
	if !shortcut {
		r.Route(methodOf[m], path, h)
		return
	}
	switch m {
	case "GET":
		r.Get(path, h)
	case "HEAD":
		r.Head(path, h)
	case "POST":
		r.Post(path, h)
	case "PUT":
		r.Put(path, h)
	case "DELETE":
		r.Delete(path, h)
	case "CONNECT":
		r.Connect(path, h)
	case "OPTIONS":
		r.Options(path, h)
	case "TRACE":
		r.Trace(path, h)
	case "PATCH":
		r.Patch(path, h)
	}
}

func registerRes(r inbuilt.Resource, shortcut bool, m string, h inbuilt.Handler) {
	if !shortcut {
		r.Route(methodOf[m], h)
		return
	}
	switch m {
	case "GET":
		r.Get(h)
	case "HEAD":
		r.Head(h)
	case "POST":
		r.Post(h)
	case "PUT":
		r.Put(h)
	case "DELETE":
		r.Delete(h)
	case "CONNECT":
		r.Connect(h)
	case "OPTIONS":
		r.Options(h)
	case "TRACE":
		r.Trace(h)
	case "PATCH":
		r.Patch(h)
	}
}

// build registers the routes in the given order, each through the root, groups or a resource.
func build(t *rapid.T, w *world, routes []route) (r router.Router, desc string) {
	root := inbuilt.New()
	groups := map[string]*inbuilt.Router{}
	var d strings.Builder
	for _, rt := range routes {
		h := w.handler(rt.id)
		// groups and resources without routes mean nothing
		switch rapid.IntRange(0, 9).Draw(t, "empty") {
		case 0:
			prefix := rapid.SampledFrom([]string{"/empty", "/" + strings.Join(rt.tmpl, "/"), "/{nothing}"}).Draw(t, "emptygroup")
			root.Group(prefix)
			fmt.Fprintf(&d, " group(%s)", prefix)
		case 1:
			root.Group("/empty").Group("/too")
			root.Resource("/empty")
			d.WriteString(" group(/empty)(/too) resource:/empty")
		}
		shortcut := rapid.Bool().Draw(t, "shortcut")
		slash := ""
		if rapid.IntRange(0, 4).Draw(t, "slash") == 0 {
			slash = "/"
		}
		at := rapid.IntRange(0, len(rt.tmpl)).Draw(t, "split")
		prefix := "/" + strings.Join(rt.tmpl[:at], "/")
		rest := "/" + strings.Join(rt.tmpl[at:], "/")
		switch via := rapid.IntRange(0, 3).Draw(t, "via"); {
		case via == 0 && len(rt.tmpl) > 0:
			registerRes(root.Resource(rt.tmpl.path()+slash), shortcut, rt.method, h)
			fmt.Fprintf(&d, " resource:%s%s", rt.tmpl.path(), slash)
		case via == 1 && at > 0:
			g := groups[prefix]
			if g == nil || rapid.Bool().Draw(t, "newgroup") {
				g = root.Group(prefix)
				groups[prefix] = g
			}
			register(g, shortcut, rt.method, rest+slash, h)
			fmt.Fprintf(&d, " group(%s):%s%s", prefix, rest, slash)
		case via == 2 && at > 1:
			g := root.Group("/" + rt.tmpl[0]).Group("/" + strings.Join(rt.tmpl[1:at], "/"))
			register(g, shortcut, rt.method, rest+slash, h)
			fmt.Fprintf(&d, " group(/%s)(/%s):%s%s", rt.tmpl[0], strings.Join(rt.tmpl[1:at], "/"), rest, slash)
		default:
			register(root, shortcut, rt.method, rt.tmpl.path()+slash, h)
			fmt.Fprintf(&d, " %s%s", rt.tmpl.path(), slash)
		}
		d.WriteString(" " + rt.method)
	}
	return lib.Initialize(t, root), d.String()
}

func genPath(t *rapid.T, tmpls []segs) string {
	s := append(segs(nil), rapid.SampledFrom(tmpls).Draw(t, "of")...)
	for i := range s {
		if isParam(s[i]) || rapid.IntRange(0, 11).Draw(t, "swap") == 0 {
			s[i] = lib.WordOr(t, func(s string) bool { return !strings.Contains(s, "/") && s != "" }, func() string {
				return rapid.SampledFrom(append([]string{"zzz", "0", "{x}", "w1", "w30", "deep", "p"}, words...)).Draw(t, "seg")
			})
		}
	}
	switch rapid.IntRange(0, 7).Draw(t, "twist") {
	case 0:
		s = append(s, rapid.SampledFrom(words).Draw(t, "extra"))
	case 1:
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	case 2:
		if len(s) > 0 {
			i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
			s[i] = rapid.SampledFrom([]string{"", strings.ToUpper(s[i]), s[i] + "x", s[i][:max(0, len(s[i])-1)], s[i] + " y"}).Draw(t, "mutated")
		}
	}
	return s.path() + rapid.SampledFrom([]string{"", "", "", "/", "//", "///", "/////"}).Draw(t, "slashes")
}

func escape(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] <= ' ' || p[i] >= 0x7f || p[i] == '%' || p[i] == '?' {
			fmt.Fprintf(&b, "%%%02X", p[i])
		} else {
			b.WriteByte(p[i])
		}
	}
	return b.String()
}

func tables(t *rapid.T, c *lib.Case, wide bool) {
	tmpls := genTemplates(t, wide)
	tb := table{}
	var routes []route
	for _, s := range tmpls {
		n := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 2, 4, 9}).Draw(t, "nmethods")
		for i := 0; i < n; i++ {
			var m string
			if n == 9 {
				m = lib.AllMethods[i]
				if rapid.IntRange(0, 9).Draw(t, "not this one") == 0 {
					continue
				}
			} else {
				m = rapid.SampledFrom([]string{"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "CONNECT", "OPTIONS", "PATCH", "TRACE"}).Draw(t, "method")
			}
			if tb[s.path()] == nil {
				tb[s.path()] = map[string]string{}
			}
			if tb[s.path()][m] != "" {
				continue
			}
			id := fmt.Sprintf("%s %s", m, s.path())
			tb[s.path()][m] = id
			routes = append(routes, route{s, m, id})
		}
	}
	w := &world{}
	r, desc := build(t, w, routes)
	c.Logf("routes:%s", desc)
	// another registration order
	perm := rapid.Permutation(routes).Draw(t, "order")
	w2 := &world{}
	r2, desc2 := build(t, w2, perm)
	c.Logf("or:%s", desc2)

	n := rapid.IntRange(1, 12).Draw(t, "nreqs")
	var data []byte
	var paths, methods []string
	var heads []bool
	for i := 0; i < n; i++ {
		p := genPath(t, tmpls)
		m := rapid.SampledFrom(lib.AllMethods).Draw(t, "reqmethod")
		if ms, _, found, _ := tb.match(p); found && rapid.IntRange(0, 2).Draw(t, "known") > 0 {
			var known []string
			for k := range tb[ms.path()] {
				known = append(known, k)
			}
			sort.Strings(known)
			m = rapid.SampledFrom(known).Draw(t, "knownmethod")
			if m == "GET" && rapid.IntRange(0, 3).Draw(t, "ashead") == 0 {
				m = "HEAD"
			}
		}
		paths, methods, heads = append(paths, p), append(methods, m), append(heads, m == "HEAD")
		data = append(data, fmt.Sprintf("%s %s HTTP/1.1\r\n\r\n", m, escape(p))...)
		c.Logf("%s %q", m, p)
	}
	for k, rr := range []router.Router{r, r2} {
		ww := []*world{w, w2}[k]
		conn := lib.NewConn([][]byte{data})
		if p := lib.Serve(config.Default(), conn, encryption.Plain, rr); p != "" {
			c.Failf(t, "order %d: serving panicked: %s", k, p)
		}
		finals, _, err := lib.ParseAll(conn.Out, heads)
		if err != nil || len(finals) != n {
			c.Failf(t, "order %d: %d responses to %d requests, %v", k, len(finals), n, err)
		}
		calls := ww.calls
		for i, resp := range finals {
			tmpl, params, found, ambiguous := tb.match(paths[i])
			if ambiguous {
				// which one is taken isn't specified; keep the calls in step
				if resp.Code == 200 && len(calls) > 0 && calls[0].method == methods[i] && calls[0].path == strings.TrimRight(paths[i], "/") {
					calls = calls[1:]
				}
				c.Class("ambiguous")
				continue
			}
			what := fmt.Sprintf("order %d, request %d (%s %q)", k, i, methods[i], paths[i])
			if !found {
				if resp.Code != 404 {
					c.Failf(t, "%s: no route matches, but the answer is %d %q", what, resp.Code, resp.Body)
				}
				c.Class("404")
				continue
			}
			known := tb[tmpl.path()]
			id := known[methods[i]]
			if id == "" && methods[i] == "HEAD" {
				id = known["GET"]
			}
			if id == "" {
				if methods[i] == "TRACE" {
					if resp.Code != 200 {
						c.Failf(t, "%s: TRACE of a known path is answered by %d", what, resp.Code)
					}
					continue
				}
				if resp.Code != 405 {
					c.Failf(t, "%s: matches %s, which lacks the method, but the answer is %d", what, tmpl.path(), resp.Code)
				}
				allow, err := resp.One("Allow")
				if err != nil {
					c.Failf(t, "%s: %v", what, err)
				}
				var want []string
				for m := range known {
					want = append(want, m)
				}
				got := strings.Split(strings.ReplaceAll(allow, " ", ""), ",")
				sort.Strings(want)
				sort.Strings(got)
				if fmt.Sprint(want) != fmt.Sprint(got) {
					c.Failf(t, "%s: Allow: %s, while the methods are %q", what, allow, want)
				}
				c.Class("405")
				continue
			}
			if resp.Code != 200 {
				c.Failf(t, "%s: must reach %s, but is answered by %d", what, id, resp.Code)
			}
			if len(calls) == 0 {
				c.Failf(t, "%s: no handler was called", what)
			}
			got := calls[0]
			calls = calls[1:]
			if got.id != id {
				c.Failf(t, "%s: reached %s instead of %s", what, got.id, id)
			}
			if fmt.Sprintf("%q", got.params) != fmt.Sprintf("%q", params) {
				c.Failf(t, "%s: parameters %q instead of %q", what, got.params, params)
			}
			if !heads[i] && string(resp.Body) != id {
				c.Failf(t, "%s: response %q", what, resp.Body)
			}
			c.Class("found")
		}
		if len(calls) > 0 {
			c.Failf(t, "order %d: %d handler calls more than requests", k, len(calls))
		}
	}
	c.NonTrivial(desc, string(data))
}

// templates: a template is accepted exactly if parameters are whole, closed segments.
func templates(t *rapid.T, c *lib.Case) {
	s := "/" + rapid.StringOfN(rapid.SampledFrom([]rune("ab{}/{}/")), 0, 9, -1).Draw(t, "tmpl")
	c.Logf("%q", s)
	// double slashes aren't specified
	if strings.Contains(s, "//") {
		return
	}
	ok, unclear := true, false
	for _, seg := range strings.Split(strings.Trim(s, "/"), "/") {
		switch {
		case !strings.Contains(seg, "{"):
			// a closing brace alone is an ordinary character or an error
			unclear = unclear || strings.Contains(seg, "}")
		case strings.HasPrefix(seg, "{") && strings.HasSuffix(seg, "}") && !strings.ContainsAny(seg[1:len(seg)-1], "{}"):
		default:
			ok = false
		}
	}
	if unclear {
		return
	}
	msg := lib.Catch(func() {
		inbuilt.New().Get(s, http.Respond).Initialize()
	})
	if ok != (msg == "") {
		c.Failf(t, "well-formed %v, but registering it: %q", ok, msg)
	}
	if strings.Contains(s, "{") {
		c.NonTrivial(s)
	}
}

// conflicts: one more route is refused exactly if it can't be told from another one.
func conflicts(t *rapid.T, c *lib.Case) {
	tmpls := genTemplates(t, false)
	w := &world{}
	have := map[string]bool{}
	var routes []route
	methods := []string{"GET", "POST", "HEAD", "TRACE"}
	for _, s := range tmpls {
		m := rapid.SampledFrom(methods).Draw(t, "method")
		if id := m + " " + s.path(); !have[id] {
			have[id] = true
			routes = append(routes, route{s, m, id})
		}
	}
	base := rapid.SampledFrom(routes).Draw(t, "base")
	more := route{append(segs(nil), base.tmpl...), base.method, "more"}
	var params []int
	for i, seg := range more.tmpl {
		if isParam(seg) {
			params = append(params, i)
		}
	}
	refused := true
	switch kind := rapid.IntRange(0, 3).Draw(t, "kind"); {
	case kind == 0 && len(params) > 0:
		// another name for the parameter at the same place
		i := rapid.SampledFrom(params).Draw(t, "param")
		more.tmpl[i] = "{another}"
		more.tmpl = append(more.tmpl[:i+1], rapid.SampledFrom([]segs{more.tmpl[i+1:], {"more"}, nil}).Draw(t, "rest")...)
		more.method = rapid.SampledFrom(methods).Draw(t, "method")
		c.Class("names")
	case kind == 1:
		more.method = rapid.SampledFrom(methods).Draw(t, "method")
		refused = have[more.method+" "+more.tmpl.path()]
	case kind == 2:
		more.tmpl = append(more.tmpl, "more")
		refused = false
	default:
		c.Class("duplicates")
	}
	at := rapid.IntRange(0, len(routes)).Draw(t, "at")
	all := append(append(append([]route(nil), routes[:at]...), more), routes[at:]...)
	c.Logf("%v, one more: %s %s", routes, more.method, more.tmpl.path())
	desc := ""
	msg := lib.Catch(func() { _, desc = build(t, w, all) })
	c.Logf("%s", desc)
	if refused != (msg != "") {
		c.Failf(t, "conflicting %v, but registering it: %q", refused, msg)
	}
	if refused {
		c.NonTrivial(fmt.Sprint(all))
	}
}
