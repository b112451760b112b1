// C27: stock middlewares do what they promise around any handler.
package c27

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC27(t *testing.T) {
	log.SetOutput(io.Discard)
	lib.Run(t, "C27",
		lib.Prop{Name: "stack", Quick: 9000, Fn: stack},
	)
}

type logger struct{ lines []string }

// Write takes what the standard logger prints.
func (l *logger) Write(b []byte) (int, error) {
	l.lines = append(l.lines, strings.TrimSuffix(string(b), "\n"))
	return len(b), nil
}

func (l *logger) Printf(f string, v ...any) { l.lines = append(l.lines, fmt.Sprintf(f, v...)) }

type kind int

const (
	kRecover kind = iota
	kServer
	kLog
	kRedirect
	kHTTPS
	kContext
	nKinds
)

type layer struct {
	kind     kind
	server   string
	loggers  []*logger
	from, to string
	params   middleware.HTTPOnlyParams
	ctx      context.Context
	mw       inbuilt.Middleware
}

func (l *layer) String() string {
	switch l.kind {
	case kRecover:
		return "Recover"
	case kServer:
		return fmt.Sprintf("ServerHeader=%q", l.server)
	case kLog:
		return fmt.Sprintf("LogRequests(%d loggers)", len(l.loggers))
	case kRedirect:
		return fmt.Sprintf("Redirect(%q, %q)", l.from, l.to)
	case kHTTPS:
		return fmt.Sprintf("HTTPSOnly(%+v)", l.params)
	}
	return "CustomContext"
}

// what the handler does with one request
type behaviour int

const (
	bText behaviour = iota
	bHeaders
	bNil
	bPanic
	bHalf // panics having built a part of a response
	bRuntime
	bHTTPError // panics with an error meaning another code
	bDeep      // panics in a deferred function, after another panic
	bError
	nBehaviours
)

type ctxKey struct{}

// outcome is what the model says about one request.
type outcome struct {
	panicking bool
	called    bool
	codes     []int // acceptable
	body      *string
	headers   []string // "name: value", other than Content-Type and Content-Length, in any order
	location  func(string) error
	logs      []*logger
	ctx       context.Context
}

type request struct {
	wire      string
	method    string
	path      string
	query     string
	host      string
	behaviour behaviour
	code      int
}

func visible(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

// eval is the reference for the middlewares from i on.
func eval(layers []*layer, i int, r *request, paths []string, source string, enc encryption.Token, ctx context.Context) outcome {
	if i == len(layers) {
		o := outcome{called: true, ctx: ctx}
		text := func(s string) { o.body = &s }
		switch r.behaviour {
		case bText:
			o.codes = []int{r.code}
			text("text " + r.path)
		case bHeaders:
			o.codes = []int{r.code}
			o.headers = []string{"x-one: 1", "x-two: a, b", "x-one: 2", "server: own"}
			text("")
		case bNil:
			o.codes = []int{200}
			text("")
		case bError:
			o.codes = []int{403}
		default:
			o.panicking = true
		}
		return o
	}
	l := layers[i]
	switch l.kind {
	case kRecover:
		o := eval(layers, i+1, r, paths, source, enc, ctx)
		if o.panicking {
			o.panicking = false
			o.codes, o.body, o.headers, o.location = []int{500}, nil, nil, nil
		}
		return o
	case kServer:
		o := eval(layers, i+1, r, paths, source, enc, ctx)
		if !o.panicking {
			o.headers = append(o.headers, "server: "+l.server)
		}
		return o
	case kLog:
		o := eval(layers, i+1, r, paths, source, enc, ctx)
		if !o.panicking {
			o.logs = append(o.logs, l.loggers...)
		}
		return o
	case kRedirect:
		for _, p := range paths {
			if p == l.from {
				return outcome{codes: []int{301, 302, 307, 308}, location: func(s string) error {
					if s != l.to {
						return fmt.Errorf("location %q instead of %q", s, l.to)
					}
					return nil
				}}
			}
		}
		return eval(layers, i+1, r, paths, source, enc, ctx)
	case kHTTPS:
		if enc != encryption.Plain {
			return eval(layers, i+1, r, paths, source, enc, ctx)
		}
		host := l.params.RedirectTo
		if host == "" {
			host, _, _ = strings.Cut(r.host, ":")
		}
		if host == "" {
			return outcome{codes: []int{400}}
		}
		return outcome{codes: []int{301, 302, 307, 308}, location: func(s string) error {
			return httpsLocation(s, host, l.params.Port, paths, source, r.query)
		}}
	case kContext:
		return eval(layers, i+1, r, paths, source, enc, l.ctx)
	}
	panic("unreachable")
}

func httpsLocation(s, host, port string, paths []string, source, query string) error {
	if !visible(s) || strings.ContainsAny(s, " ") {
		return fmt.Errorf("location %q contains bytes that aren't allowed there", s)
	}
	rest, ok := strings.CutPrefix(s, "https://"+host)
	if !ok {
		return fmt.Errorf("location %q doesn't lead to https://%s", s, host)
	}
	if port != "" {
		if rest, ok = strings.CutPrefix(rest, ":"+port); !ok {
			return fmt.Errorf("location %q lacks the port %s", s, port)
		}
	} else if r, ok := strings.CutPrefix(rest, ":443"); ok {
		rest = r
	} else {
		rest = strings.TrimPrefix(rest, ":")
	}
	p, q, hasQuery := strings.Cut(rest, "?")
	if hasQuery && q != query {
		return fmt.Errorf("location %q has another query", s)
	}
	got, err := unescape(p)
	if err != nil {
		return fmt.Errorf("location %q: %v", s, err)
	}
	if source != "" {
		paths = []string{source}
	}
	for _, want := range paths {
		if got == want {
			return nil
		}
	}
	return fmt.Errorf("location %q has the path %q instead of %q", s, got, paths)
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			b.WriteByte(s[i])
			continue
		}
		var c byte
		if i+2 >= len(s) {
			return "", errors.New("incomplete escape")
		}
		if _, err := fmt.Sscanf(s[i+1:i+3], "%02x", &c); err != nil {
			return "", err
		}
		b.WriteByte(c)
		i += 2
	}
	return b.String(), nil
}

// composed is a router without any routing: just the middlewares around a handler.
type composed struct {
	h inbuilt.Handler
}

func (c composed) OnRequest(req *http.Request) *http.Response { return c.h(req) }
func (c composed) OnError(req *http.Request, err error) *http.Response {
	return http.Error(req, err)
}

var pathPool = []string{"/", "/old", "/new", "/old/x", "/alias", "/Old", "/old%20x", "/a%0d%0aX-Evil:%201", "/%00", "/%e2%98%83", "/%ff", "/a%22b", "/a%5cn", "/%25zz", "/%3fq%23f", "/a;b"}

func stack(t *rapid.T, c *lib.Case) {
	var layers []*layer
	n := rapid.IntRange(1, 6).Draw(t, "layers")
	recovers, servers, standard := false, false, false
	std := &logger{}
	log.SetOutput(std)
	log.SetFlags(0)
	defer log.SetOutput(io.Discard)
	for i := 0; i < n; i++ {
		l := &layer{kind: kind(rapid.IntRange(0, int(nKinds)-1).Draw(t, "kind"))}
		switch l.kind {
		case kRecover:
			if standard {
				continue // it speaks to the standard logger, too
			}
			recovers = true
			l.mw = middleware.Recover
		case kServer:
			if servers {
				continue
			}
			servers = true
			vals := rapid.SliceOfN(rapid.SampledFrom([]string{"nginx", "indigo/1.0", "(x)", "a b"}), 0, 3).Draw(t, "server")
			l.server = strings.Join(vals, " ")
			if l.server == "" {
				l.server = middleware.DefaultServerHeader
			}
			l.mw = middleware.ServerHeader(vals...)
			// the memory of the caller's slice is his own
			for i := range vals {
				vals[i] = "overwritten"
			}
		case kLog:
			var ls []middleware.Logger
			least := 0
			if recovers || standard {
				least = 1
			}
			k := rapid.IntRange(least, 2).Draw(t, "loggers")
			if k == 0 {
				standard = true
				l.loggers = append(l.loggers, std)
			}
			for ; k > 0; k-- {
				lg := &logger{}
				l.loggers = append(l.loggers, lg)
				ls = append(ls, lg)
			}
			l.mw = middleware.LogRequests(ls...)
		case kRedirect:
			l.from = rapid.SampledFrom([]string{"/old", "/alias", "/old x", "/", "/new", "/a\r\nX-Evil: 1", "/ol"}).Draw(t, "from")
			l.to = rapid.SampledFrom([]string{"/new", "https://example.com/", "/old", "/?a=b"}).Draw(t, "to")
			l.mw = middleware.Redirect(l.from, l.to)
		case kHTTPS:
			l.params.RedirectTo = rapid.SampledFrom([]string{"", "", "secure.example.com"}).Draw(t, "redirectto")
			l.params.Port = rapid.SampledFrom([]string{"", "8443"}).Draw(t, "port")
			if l.params == (middleware.HTTPOnlyParams{}) && rapid.Bool().Draw(t, "no params") {
				l.mw = middleware.HTTPSOnly()
			} else {
				l.mw = middleware.HTTPSOnly(l.params)
			}
		case kContext:
			l.ctx = context.WithValue(context.Background(), ctxKey{}, i)
			l.mw = middleware.CustomContext(l.ctx)
		}
		layers = append(layers, l)
		c.Logf("%s", l)
	}

	// the requests
	var reqs []*request
	var wire []byte
	nreq := rapid.IntRange(1, 3).Draw(t, "requests")
	for i := 0; i < nreq; i++ {
		r := &request{method: rapid.SampledFrom([]string{"GET", "POST", "HEAD", "DELETE", "OPTIONS"}).Draw(t, "method")}
		raw := rapid.SampledFrom(pathPool).Draw(t, "path")
		if rapid.IntRange(0, 2).Draw(t, "any path") == 0 {
			r.path, raw = lib.GenPath(t)
		} else {
			if rapid.IntRange(0, 19).Draw(t, "long path") == 0 {
				raw += strings.Repeat(rapid.SampledFrom([]string{"/a%0ab", "x", "%c3%a9", "%7f/"}).Draw(t, "unit"), rapid.IntRange(1, 400).Draw(t, "times"))
			}
			r.path, _ = unescape(raw)
		}
		target := raw
		if rapid.IntRange(0, 2).Draw(t, "query") == 0 {
			r.query = "a=b%20c&d"
			target += "?" + r.query
		}
		r.host = rapid.SampledFrom([]string{"", "example.com", "example.com:8080", "10.0.0.1", "localhost:80", ":8080", ":"}).Draw(t, "host")
		max := int(nBehaviours) - 1
		r.behaviour = behaviour(rapid.IntRange(0, max).Draw(t, "behaviour"))
		if !recovers && r.behaviour >= bPanic && r.behaviour <= bDeep {
			r.behaviour = bText
		}
		r.code = rapid.SampledFrom([]int{200, 201, 404, 418, 503}).Draw(t, "code")
		r.wire = r.method + " " + target + " HTTP/1.1\r\n"
		if r.host != "" {
			r.wire += "Host: " + r.host + "\r\n"
		}
		r.wire += fmt.Sprintf("X-Index: %d\r\n\r\n", i)
		c.Logf("request %q, handler behaviour %d, code %d", r.wire, r.behaviour, r.code)
		wire = append(wire, r.wire...)
		reqs = append(reqs, r)
	}

	// the handler
	calls := make([]int, nreq)
	ctxs := make([]context.Context, nreq)
	handler := func(req *http.Request) *http.Response {
		i := int(req.Headers.Value("x-index")[0] - '0')
		calls[i]++
		ctxs[i] = req.Ctx
		r := reqs[i]
		switch r.behaviour {
		case bText:
			return http.String(req, "text "+r.path).Code(status.Code(r.code))
		case bHeaders:
			return req.Respond().Code(status.Code(r.code)).Header("X-One", "1").Header("X-Two", "a, b").Header("X-One", "2").Header("Server", "own")
		case bNil:
			return nil
		case bError:
			return http.Error(req, status.ErrForbidden)
		case bHalf:
			req.Respond().Code(status.Accepted).Header("X-Half", "1").Header("Server", "half").String("half")
			panic(errors.New("half-way"))
		case bRuntime:
			var m map[string]int
			m["x"] = 1
		case bHTTPError:
			panic(status.ErrNotFound)
		case bDeep:
			defer func() { panic(fmt.Errorf("later: %w", status.ErrForbidden)) }()
		}
		panic("on purpose")
	}

	// through the inbuilt router, or just composed
	var rt router.Router
	var source, target string
	var before []*logger
	noisy := false
	viaRouter := rapid.Bool().Draw(t, "router")
	if viaRouter {
		root := inbuilt.New()
		if rapid.Bool().Draw(t, "requests log") {
			lg, lg2 := &logger{}, &logger{}
			switch {
			case !recovers && !standard && rapid.Bool().Draw(t, "standard"):
				standard = true
				before = append(before, std)
				root.Mutator(mutator.RequestsLog())
			case rapid.Bool().Draw(t, "two"):
				before = append(before, lg, lg2)
				root.Mutator(mutator.RequestsLog(lg, lg2))
			default:
				before = append(before, lg)
				root.Mutator(mutator.RequestsLog(lg))
			}
			c.Logf("mutator RequestsLog, standard %v", standard)
		}
		if rapid.Bool().Draw(t, "alias") {
			source = "/alias"
			target = rapid.SampledFrom([]string{"/new", "/target", "/old"}).Draw(t, "alias to")
			root.Alias(source, target)
			c.Logf("Alias(%s, %s)", source, target)
		}
		for _, l := range layers {
			root.Use(l.mw)
		}
		root.Catch("/", handler)
		root.Get("/new", handler).Post("/new", handler).Delete("/new", handler).Options("/new", handler)
		rt = lib.Initialize(t, root)
		for _, l := range layers {
			if l.kind == kRedirect || l.kind == kHTTPS {
				// these answer the end of the connection, too, which is logged then
				noisy = true
			}
		}
		if noisy || len(before) > 0 || rapid.Bool().Draw(t, "quiet") {
			rt = lib.Quiet{Router: rt}
		}
	} else {
		h := inbuilt.Handler(handler)
		for i := len(layers) - 1; i >= 0; i-- {
			next, mw := h, layers[i].mw
			h = func(req *http.Request) *http.Response { return mw(next, req) }
		}
		rt = lib.Quiet{Router: composed{h}}
	}

	enc := rapid.SampledFrom([]encryption.Token{encryption.Plain, encryption.Plain, encryption.TLS, encryption.Extend}).Draw(t, "encryption")
	conn := lib.NewConn(lib.Split(wire, lib.GenCuts(t, len(wire))))
	cfg := config.Default()
	if msg := lib.Serve(cfg, conn, enc, rt); msg != "" {
		c.Failf(t, "panic: %s", msg)
	}

	heads := make([]bool, nreq)
	for i, r := range reqs {
		heads[i] = r.method == "HEAD"
	}
	finals, _, err := lib.ParseAll(conn.Out, heads)
	if err != nil {
		c.Failf(t, "malformed output: %v in %s", err, lib.Q(conn.Out))
	}
	for i := 0; i < nreq; i++ {
		r := reqs[i]
		paths := []string{r.path}
		aliased := ""
		if viaRouter {
			p := r.path
			if source != "" && p == source {
				p, aliased = target, source
			}
			if trimmed := strings.TrimRight(p, "/"); trimmed != "" {
				p = trimmed
			} else {
				p = p[:1]
			}
			paths = []string{p}
		}
		if i >= len(finals) {
			c.Failf(t, "request %d isn't answered: %s", i, lib.Q(conn.Out))
		}
		got := finals[i]
		o := eval(layers, 0, r, paths, aliased, enc, context.Background())
		if !contains(o.codes, got.Code) {
			c.Failf(t, "request %d: code %d instead of %v", i, got.Code, o.codes)
		}
		if o.body != nil && !heads[i] && string(got.Body) != *o.body {
			c.Failf(t, "request %d: body %q instead of %q", i, got.Body, *o.body)
		}
		wantCalls := 0
		if o.called {
			wantCalls = 1
		}
		if calls[i] != wantCalls {
			c.Failf(t, "request %d: the handler is called %d times instead of %d", i, calls[i], wantCalls)
		}
		if o.called && o.ctx != nil && o.ctx != context.Background() && ctxs[i] != o.ctx {
			c.Failf(t, "request %d: the handler got another context", i)
		}
		if o.called && ctxs[i] != nil && (o.ctx == context.Background()) && ctxs[i].Value(ctxKey{}) != nil {
			c.Failf(t, "request %d: the handler got a context without any CustomContext", i)
		}
		want := map[string]int{}
		for _, h := range o.headers {
			want[h]++
		}
		for name, value := range cfg.Headers.Default {
			want[strings.ToLower(name)+": "+value]++
		}
		for _, h := range got.Headers {
			name := strings.ToLower(h[0])
			switch name {
			case "content-type", "content-length", "date", "connection":
				continue
			case "location":
				if o.location == nil {
					c.Failf(t, "request %d: redirected to %q", i, h[1])
				}
				if err := o.location(h[1]); err != nil {
					c.Failf(t, "request %d: %v", i, err)
				}
				o.location = nil
				c.Class("redirected")
				continue
			}
			line := name + ": " + h[1]
			if want[line]--; want[line] < 0 {
				c.Failf(t, "request %d: header %q isn't expected", i, line)
			}
		}
		for line, k := range want {
			if k > 0 {
				c.Failf(t, "request %d: header %q is missing", i, line)
			}
		}
		if o.location != nil {
			c.Failf(t, "request %d: no Location", i)
		}
		for _, lg := range o.logs {
			if len(lg.lines) == 0 {
				c.Failf(t, "request %d isn't logged", i)
			}
			if err := logged(lg.lines[0], r, paths, got.Code); err != nil {
				c.Failf(t, "request %d: %v", i, err)
			}
			lg.lines = lg.lines[1:]
			c.Class("logged")
		}
	}
	if len(finals) != nreq {
		c.Failf(t, "%d responses to %d requests", len(finals), nreq)
	}
	for _, l := range layers {
		for _, lg := range l.loggers {
			if len(lg.lines) > 0 {
				c.Failf(t, "superfluous log lines: %q", lg.lines)
			}
		}
	}
	if !recovers && !standard && len(std.lines) > 0 {
		c.Failf(t, "superfluous lines of the standard logger: %q", std.lines)
	}
	for _, lg := range before {
		if len(lg.lines) != nreq {
			c.Failf(t, "RequestsLog: %d lines for %d requests: %q", len(lg.lines), nreq, lg.lines)
		}
		for i, r := range reqs {
			if err := logged(lg.lines[i], r, []string{r.path, target}, 0); err != nil {
				c.Failf(t, "RequestsLog, request %d: %v", i, err)
			}
		}
		c.Class("RequestsLog")
	}
	key := ""
	for _, l := range layers {
		key += l.String() + ";"
	}
	for _, r := range reqs {
		key += fmt.Sprint(r.wire, r.behaviour, r.code)
	}
	if len(layers) > 0 {
		c.NonTrivial(key, viaRouter, enc)
	}
}

// logged judges a line: printable, with the method, the path and the code.
func logged(line string, r *request, paths []string, code int) error {
	line = strings.TrimSuffix(line, "\n")
	if !visible(line) {
		return fmt.Errorf("log line %q isn't printable ASCII", line)
	}
	if !strings.Contains(line, r.method) {
		return fmt.Errorf("log line %q lacks the method %s", line, r.method)
	}
	if code != 0 && !strings.Contains(line, fmt.Sprint(code)) {
		return fmt.Errorf("log line %q lacks the code %d", line, code)
	}
	for _, p := range paths {
		if p == "" {
			continue
		}
		// the printable pieces of the path, in order
		rest, ok := line, true
		for _, piece := range strings.FieldsFunc(p, func(c rune) bool { return c < 0x20 || c > 0x7e }) {
			k := strings.Index(rest, piece)
			if k < 0 {
				ok = false
				break
			}
			rest = rest[k+len(piece):]
		}
		if ok {
			return nil
		}
	}
	return fmt.Errorf("log line %q lacks the path %q", line, paths)
}

func contains(list []int, x int) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}
