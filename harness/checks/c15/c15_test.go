// C15: concurrent connections never interfere. Built with the race detector.
package c15

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/virtual"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

var root string

func TestC15(t *testing.T) {
	log.SetOutput(io.Discard)
	root = t.TempDir()
	for i := 0; i < 5; i++ {
		name := filepath.Join(root, fmt.Sprintf("file%d.%s", i, []string{"txt", "html", "bin", "css", "unknown"}[i]))
		if err := os.WriteFile(name, bytes.Repeat([]byte(fmt.Sprintf("content of file %d\n", i)), i*300+1), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.MkdirAll(filepath.Join(root, "sub"), 0o700); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(root, "sub", "deep.txt"), []byte("deep"), 0o600); err != nil {
		t.Fatal(err)
	}
	lib.Run(t, "C15",
		lib.Prop{Name: "router", Quick: 220, Fn: inMemory},
		lib.Prop{Name: "application", Quick: 60, Fn: application},
	)
}

type nopLogger struct{}

func (nopLogger) Printf(f string, v ...any) { _ = fmt.Sprintf(f, v...) }

// lines collects what is logged.
type lines struct {
	mu   sync.Mutex
	list []string
}

func (l *lines) Printf(f string, v ...any) {
	s := fmt.Sprintf(f, v...)
	l.mu.Lock()
	defer l.mu.Unlock()
	l.list = append(l.list, s)
}

func (l *lines) sorted() []string {
	sort.Strings(l.list)
	return l.list
}

type model struct {
	Name  string
	Count int
	List  []string
}

type key struct{}

func newRouter(name string, dynamic bool, logger middleware.Logger) *inbuilt.Router {
	r := inbuilt.New()
	r.Use(middleware.Recover, middleware.LogRequests(logger), middleware.ServerHeader("indigo", name))
	r.Use(middleware.CustomContext(context.WithValue(context.Background(), key{}, name)))
	r.Mutator(mutator.RequestsLog(logger))
	r.Alias("/alias", "/static")
	r.Get("/static", func(req *http.Request) *http.Response {
		return http.String(req, name+" static "+req.Env.AliasFrom)
	})
	echo := func(req *http.Request) *http.Response {
		var b strings.Builder
		fmt.Fprintf(&b, "%s %v %q %q %s\n", name, req.Ctx.Value(key{}), req.Path, req.Query.Raw(), req.Proto)
		for _, p := range req.Params.Unwrap() {
			fmt.Fprintf(&b, "param %q=%q\n", p.Key, p.Value)
		}
		for _, p := range req.Headers.Unwrap() {
			fmt.Fprintf(&b, "header %q=%q\n", p.Key, p.Value)
		}
		if params, err := req.Query.Unwrap(); err == nil {
			for _, p := range params.Unwrap() {
				fmt.Fprintf(&b, "query %q=%q\n", p.Key, p.Value)
			}
		}
		if jar, err := req.Cookies(); err == nil {
			for _, p := range jar.Unwrap() {
				fmt.Fprintf(&b, "cookie %q=%q\n", p.Key, p.Value)
			}
		}
		runtime.Gosched()
		body, err := req.Body.Bytes()
		fmt.Fprintf(&b, "body %q %v\n", body, err)
		return http.String(req, b.String()).Header("X-Echo", req.Path).Cookie(cookie.New("seen", "yes"), cookie.Build("path", "x").Expires(time.Unix(int64(len(b.String()))*86400, 0)).MaxAge(b.Len()).Cookie())
	}
	r.Get("/echo", echo).Post("/echo", echo)
	r.Post("/json", func(req *http.Request) *http.Response {
		var m model
		if err := req.JSON(&m); err != nil {
			return http.Error(req, err)
		}
		runtime.Gosched()
		return http.JSON(req, &m)
	})
	r.Get("/chunked", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(strings.NewReader(strings.Repeat(string(req.Query.Raw()), 40)), 0)
	})
	r.Get("/sized", func(req *http.Request) *http.Response {
		s := strings.Repeat(string(req.Query.Raw()), 30)
		return req.Respond().Attachment(strings.NewReader(s), len(s))
	})
	r.Get("/nil", func(req *http.Request) *http.Response { return nil })
	r.Get("/panic", func(req *http.Request) *http.Response { panic("on purpose") })
	r.Get("/error", func(req *http.Request) *http.Response { return http.Error(req, status.ErrForbidden) })
	r.Static("/files", root)
	g := r.Group("/group")
	g.Use(middleware.Redirect("/group/old", "/group/new"))
	g.Get("/old", echo).Get("/new", echo)
	g.Static("/more", root)
	g.Catch("/caught", echo)
	r.Resource("/res").Get(echo).Post(echo)
	if dynamic {
		r.Get("/dyn/{name}", echo)
		r.Get("/dyn/{name}/sub/{other}", echo)
		g.Post("/{any}/thing", echo)
	}
	r.RouteError(func(req *http.Request) *http.Response {
		return http.String(req, fmt.Sprintf("%s error %v on %q", name, req.Env.Error, req.Path)).Code(status.NotFound)
	}, status.NotFound)
	return r
}

func newFabric(kind int, logger middleware.Logger) router.Fabric {
	switch kind {
	case 0:
		return newRouter("one", false, logger)
	case 1:
		return newRouter("one", true, logger)
	}
	return virtual.New().Host("a.example", newRouter("a", true, logger)).Host("b.example:8080", newRouter("b", false, logger)).Default(newRouter("default", true, logger))
}

var targets = []string{
	"GET /static", "GET /alias", "GET /echo", "POST /echo", "POST /json", "GET /chunked?abc", "GET /sized?xyz", "GET /nil", "GET /panic", "GET /error",
	"GET /files/file0.txt", "GET /files/file1.html", "GET /files/file3.css", "GET /files/sub/deep.txt", "GET /files/missing", "GET /files/../x", "HEAD /files/file2.bin",
	"GET /group/old", "GET /group/new", "GET /group/more/file4.unknown", "GET /group/caught/some/path", "GET /res", "POST /res",
	"GET /dyn/value", "GET /dyn/a/sub/b", "POST /group/x/thing", "TRACE /echo", "TRACE /dyn/value", "DELETE /echo", "GET /missing", "HEAD /static", "GET /%65cho", "GET /echo/",
}

var tags = []string{"alpha", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel"}

// genConn generates what one client sends; its tag is in everything that can carry it.
// The tail is a request which isn't completed before the end of the connection.
func genConn(t *rapid.T, k int) (wire [][]byte, heads []bool, tail []byte) {
	tag := tags[k%len(tags)]
	n := rapid.IntRange(1, 6).Draw(t, "requests")
	for i := 0; i < n; i++ {
		target := rapid.SampledFrom(targets).Draw(t, "target")
		m, path, _ := strings.Cut(target, " ")
		if strings.HasPrefix(path, "/dyn/") && rapid.Bool().Draw(t, "tag in path") {
			path = strings.Replace(path, "/dyn/", "/dyn/"+tag, 1)
		}
		if strings.HasPrefix(path, "/dyn/") && rapid.IntRange(0, 2).Draw(t, "unprintable") == 0 {
			path = strings.Replace(path, "/dyn/", "/dyn/%01"+tag+"%7f"+tag, 1)
		}
		if strings.HasPrefix(path, "/missing") && rapid.Bool().Draw(t, "unprintable") {
			path += "%02" + tag + "%03"
		}
		if strings.HasPrefix(path, "/missing") || strings.Contains(path, "/caught") {
			path += tag
		}
		if !strings.Contains(path, "?") && rapid.Bool().Draw(t, "query") {
			path += "?who=" + tag + "&n=" + fmt.Sprint(i)
		} else if strings.Contains(path, "?") {
			path += tag
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\n", m, path)
		if host := rapid.SampledFrom([]string{"a.example", "B.example:8080", "other", "www.a.example:80"}).Draw(t, "host"); host != "" {
			fmt.Fprintf(&b, "Host: %s\r\n", host)
		}
		if rapid.IntRange(0, 5).Draw(t, "upgrade") == 0 {
			fmt.Fprintf(&b, "Connection: upgrade\r\nUpgrade: %s\r\n", rapid.SampledFrom([]string{"HTTP/1.1", "http/1.0", "h2c", "HTTP/1.0, HTTP/1.1"}).Draw(t, "protocol"))
		}
		for h := rapid.IntRange(0, 3).Draw(t, "headers"); h > 0; h-- {
			fmt.Fprintf(&b, "X-%s-%d: %s\r\n", tag, h, strings.Repeat(tag, h))
		}
		if rapid.Bool().Draw(t, "cookie") {
			fmt.Fprintf(&b, "Cookie: %s=%d\r\n", tag, i)
		}
		body := ""
		switch {
		case strings.HasPrefix(target, "POST /json"):
			body = fmt.Sprintf(`{"Name":%q,"Count":%d,"List":[%q,"x"]}`, strings.Repeat(tag, rapid.SampledFrom([]int{5, 5, 150, 1000}).Draw(t, "long name")), i, tag)
			if rapid.IntRange(0, 4).Draw(t, "malformed") == 0 {
				body = body[:len(body)-3]
			}
		case m == "POST":
			body = strings.Repeat(tag+" ", rapid.IntRange(0, 60).Draw(t, "body"))
		}
		if body != "" && rapid.Bool().Draw(t, "chunked") {
			h := len(body) / 2
			fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(body)-h, body[h:])
			if h > 0 {
				fmt.Fprintf(&b, "%x\r\n%s\r\n", h, body[:h])
			}
			b.WriteString("0\r\n\r\n")
		} else if body != "" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
		} else {
			b.WriteString("\r\n")
		}
		data := b.Bytes()
		if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
			wire = append(wire, lib.Split(data, lib.GenCuts(t, len(data)))...)
		} else {
			wire = append(wire, data)
		}
		heads = append(heads, m == "HEAD")
	}
	switch rapid.IntRange(0, 5).Draw(t, "end") {
	case 0:
		wire = append(wire, []byte("GET /"+tag+" HTTP/1.1\r\nX-"+tag+": "+tag+"\r\nno colon here\r\n\r\n"))
		heads = append(heads, false)
	case 1, 2:
		whole := fmt.Sprintf("POST /echo?%s=1&%s HTTP/1.1\r\nHost: a.example\r\nX-%s: %s\r\nX-Last-%s: %s\r\nCookie: %s=%s\r\n", tag, tag, tag, tag, tag, tag, tag, tag)
		if rapid.Bool().Draw(t, "tail chunked") {
			whole += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n4\r\n%s\r\n9\r\n%s", tag[:4], tag)
		} else {
			whole += fmt.Sprintf("Content-Length: 100\r\n\r\n%s", tag)
		}
		tail = []byte(whole[:rapid.IntRange(1, len(whole)).Draw(t, "tail")])
	}
	return wire, heads, tail
}

// normal renders responses independently of the order of headers.
func normal(out []byte, heads []bool) string {
	finals, interim, err := lib.ParseAll(out, heads)
	var b strings.Builder
	for i := range len(finals) + 1 {
		for _, f := range interim[i] {
			hs := make([]string, len(f.Headers))
			for k, h := range f.Headers {
				hs[k] = fmt.Sprintf("%q", h)
			}
			sort.Strings(hs)
			fmt.Fprintf(&b, "before %d: %d %s %s\n", i, f.Code, f.Text, hs)
		}
	}
	for _, f := range finals {
		var hs []string
		for _, h := range f.Headers {
			v := h[1]
			if strings.EqualFold(h[0], "allow") {
				ms := strings.Split(v, ",")
				for i := range ms {
					ms[i] = strings.TrimSpace(ms[i])
				}
				sort.Strings(ms)
				v = strings.Join(ms, ",")
			}
			hs = append(hs, h[0]+": "+v)
		}
		sort.Strings(hs)
		fmt.Fprintf(&b, "%d %s\n%s\n%q\n", f.Code, f.Text, strings.Join(hs, "\n"), f.Body)
	}
	if err != nil {
		fmt.Fprintf(&b, "error %v in %q", err, out)
	}
	return b.String()
}

func diff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("the output ends before %q", w[i])
		}
		if g[i] != w[i] {
			return fmt.Sprintf("%q instead of %q", g[i], w[i])
		}
	}
	if len(g) > len(w) {
		return fmt.Sprintf("%q at the end", g[len(w)])
	}
	return ""
}

func inMemory(t *rapid.T, c *lib.Case) {
	kind := rapid.IntRange(0, 2).Draw(t, "router")
	// the loggers synchronize the connections, so don't always listen
	var logger, aloneLogger middleware.Logger = nopLogger{}, nopLogger{}
	logged, aloneLogged := &lines{}, &lines{}
	if rapid.IntRange(0, 2).Draw(t, "logged") == 0 {
		logger, aloneLogger = logged, aloneLogged
		c.Class("logged")
	}
	shared := lib.Quiet{Router: newFabric(kind, logger).Initialize()}
	n := rapid.IntRange(2, 8).Draw(t, "connections")
	same := rapid.IntRange(0, 3).Draw(t, "same paths") == 0
	conns := make([]*lib.Conn, n)
	want := make([]string, n)
	heads := make([][]bool, n)
	msgs := make([]string, n)
	repeat := rapid.IntRange(1, 4).Draw(t, "repeat")
	k := ""
	var tail0 string
	for i := range conns {
		var wire [][]byte
		var tail []byte
		if same && i > 0 {
			// the same requests with other data
			for _, seg := range conns0(k) {
				wire = append(wire, []byte(strings.ReplaceAll(seg, tags[0], tags[i])))
			}
			heads[i] = heads[0][: len(heads[0])-1 : len(heads[0])-1]
			heads[i] = heads[i][:len(heads[i])/repeat]
			tail = []byte(strings.ReplaceAll(tail0, tags[0], tags[i]))
			if len(tags[i]) != len(tags[0]) {
				// lengths would be wrong
				wire, heads[i], tail = genConn(t, i)
			}
		} else {
			wire, heads[i], tail = genConn(t, i)
		}
		if i == 0 {
			tail0 = string(tail)
			for _, seg := range wire {
				k += string(seg) + "\x00"
			}
		}
		c.Logf("connection %d: %q, then %q", i, wire, tail)
		var all [][]byte
		var hs []bool
		for r := 0; r < repeat; r++ {
			all = append(all, wire...)
			hs = append(hs, heads[i]...)
		}
		heads[i] = append(hs, false)
		if len(tail) > 0 {
			all = append(all, tail)
			c.Class("ends within a request")
		}
		alone := lib.NewConn(all)
		if msg := lib.Serve(config.Default(), alone, encryption.Plain, lib.Quiet{Router: newFabric(kind, aloneLogger).Initialize()}); msg != "" {
			c.Failf(t, "panic serving a connection alone: %s", msg)
		}
		want[i] = normal(alone.Out, heads[i])
		conns[i] = lib.NewConn(all)
		if rapid.Bool().Draw(t, "yield") {
			conns[i].OnRead = runtime.Gosched
		}
	}
	var wg sync.WaitGroup
	begin := make(chan struct{})
	cfg := config.Default()
	for i := range conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			msgs[i] = lib.Serve(cfg, conns[i], encryption.Plain, shared)
		}()
	}
	close(begin)
	wg.Wait()
	for i := range conns {
		if msgs[i] != "" {
			c.Failf(t, "connection %d: panic: %s", i, msgs[i])
		}
		if d := diff(normal(conns[i].Out, heads[i]), want[i]); d != "" {
			c.Failf(t, "connection %d is answered otherwise than alone: %s", i, d)
		}
	}
	if a, b := logged.sorted(), aloneLogged.sorted(); fmt.Sprintf("%q", a) != fmt.Sprintf("%q", b) {
		c.Failf(t, "the connections logged %q together, but %q alone", a, b)
	}
	c.NonTrivial(k, n, kind, repeat)
	c.Class([]string{"static", "dynamic", "virtual"}[kind])
}

func conns0(k string) []string { return strings.Split(strings.TrimSuffix(k, "\x00"), "\x00") }

// application: the same through sockets.
func application(t *rapid.T, c *lib.Case) {
	kind := rapid.IntRange(0, 2).Draw(t, "router")
	addr := fmt.Sprintf("127.%d.%d.%d:%d", rand.IntN(200)+1, rand.IntN(250), rand.IntN(250)+1, 20000+rand.IntN(10000))
	n := rapid.IntRange(2, 8).Draw(t, "connections")
	wires := make([][]byte, n)
	want := make([]string, n)
	heads := make([][]bool, n)
	key := ""
	for i := range wires {
		segs, hs, tail := genConn(t, i)
		wires[i] = append(bytes.Join(segs, nil), tail...)
		hs = append(hs, false)
		heads[i] = hs
		key += string(wires[i])
		c.Logf("connection %d: %q", i, wires[i])
		alone := lib.NewConn([][]byte{wires[i]})
		if msg := lib.Serve(config.Default(), alone, encryption.Plain, newFabric(kind, nopLogger{}).Initialize()); msg != "" {
			c.Failf(t, "panic serving a connection alone: %s", msg)
		}
		want[i] = normal(alone.Out, hs)
	}
	a := indigo.New(addr)
	started := make(chan struct{})
	a.OnStart(func() { close(started) })
	returned := make(chan error, 1)
	go func() { returned <- a.Serve(newFabric(kind, nopLogger{})) }()
	select {
	case <-started:
	case err := <-returned:
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		c.Failf(t, "serving ended at once: %v", err)
	}
	outs := make([][]byte, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range wires {
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				errs[i] = err
				return
			}
			defer conn.Close()
			_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
			go func() {
				for d := wires[i]; len(d) > 0; {
					k := min(len(d), 200)
					if _, err := conn.Write(d[:k]); err != nil {
						break
					}
					d = d[k:]
				}
				_ = conn.(*net.TCPConn).CloseWrite()
			}()
			outs[i], errs[i] = io.ReadAll(conn)
		}()
	}
	wg.Wait()
	go a.Stop()
	select {
	case <-returned:
	case <-time.After(20 * time.Second):
		c.Failf(t, "serving doesn't end")
	}
	for i := range wires {
		if errs[i] != nil && !errors.Is(errs[i], syscall.ECONNRESET) {
			c.Failf(t, "connection %d: %v", i, errs[i])
		}
		if errs[i] != nil {
			// reset as the server closed without reading what was still coming
			c.Class("reset")
			continue
		}
		if d := diff(normal(outs[i], heads[i]), want[i]); d != "" {
			c.Failf(t, "connection %d is answered otherwise than alone: %s", i, d)
		}
	}
	c.NonTrivial(key, kind)
}
