// C38: memory, goroutines and descriptors stay bounded whatever the traffic.
package c38

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/virtual"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

var scratch string

func TestC38(t *testing.T) {
	scratch = t.TempDir()
	for i := 0; i < 3; i++ {
		if err := os.WriteFile(filepath.Join(scratch, fmt.Sprintf("file%d.txt", i)), bytes.Repeat([]byte("x"), 100*i*i), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.MkdirAll(filepath.Join(scratch, "sub", "dir.txt"), 0o755); err != nil {
		t.Fatal(err)
	}
	lib.Run(t, "C38",
		lib.Prop{Name: "requests", Quick: 90, Fn: requests},
		lib.Prop{Name: "connections", Quick: 60, Fn: connections},
		lib.Prop{Name: "files", Quick: 250, Fn: files},
		lib.Prop{Name: "large", Quick: 50, Fn: large},
		lib.Prop{Name: "endless", Quick: 130, Fn: endless},
	)
}

// slack is how much the live heap may differ between two moments for other reasons.
const slack = 128 << 10

// live is the memory in use by live objects.
func live() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// growth measures how much more is alive than before; an exceeded limit is confirmed.
func growth(before, limit int) int {
	g := live() - before
	for i := 0; i < 3 && g > limit; i++ {
		time.Sleep(20 * time.Millisecond)
		g = min(g, live()-before)
	}
	return g
}

func descriptors() int {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(entries)
}

// feed is a connection whose data is made on demand, and whose output is counted only.
type feed struct {
	next    func() []byte // nil ends the stream
	pending []byte
	end     error
	out     int
	closed  bool
	done    chan struct{}
	port    int
}

func (f *feed) Read(p []byte) (int, error) {
	for len(f.pending) == 0 {
		if f.pending = f.next(); f.pending == nil {
			return 0, f.end
		}
	}
	n := copy(p, f.pending)
	f.pending = f.pending[n:]
	return n, nil
}
func (f *feed) Write(p []byte) (int, error) { f.out += len(p); return len(p), nil }
func (f *feed) Close() error {
	if !f.closed {
		f.closed = true
		if f.done != nil {
			close(f.done)
		}
	}
	return nil
}
func (f *feed) LocalAddr() net.Addr              { return lib.Addr("192.0.2.2:80") }
func (f *feed) RemoteAddr() net.Addr             { return lib.Addr(fmt.Sprintf("192.0.2.1:%d", 1234+f.port)) }
func (f *feed) SetDeadline(time.Time) error      { return nil }
func (f *feed) SetReadDeadline(time.Time) error  { return nil }
func (f *feed) SetWriteDeadline(time.Time) error { return nil }

type key struct{}

type discard struct{}

func (discard) Printf(string, ...any) {}

// makeRouter has something of everything.
func makeRouter(t *rapid.T) router.Fabric {
	r := inbuilt.New()
	if rapid.Bool().Draw(t, "middlewares") {
		r.Use(middleware.Recover, middleware.ServerHeader(), middleware.LogRequests(discard{}))
	}
	ok := func(req *http.Request) *http.Response { return http.String(req, req.Path) }
	r.Get("/plain", ok)
	if rapid.Bool().Draw(t, "dynamic") {
		r.Get("/u/{id}", func(req *http.Request) *http.Response {
			return http.String(req, req.Params.Value("id"))
		})
		r.Get("/u/{id}/more", ok)
	}
	r.Get("/query", func(req *http.Request) *http.Response {
		params, err := req.Query.Unwrap()
		if err != nil {
			return http.Error(req, err)
		}
		return http.String(req, fmt.Sprint(params.Len()))
	})
	r.Get("/cookies", func(req *http.Request) *http.Response {
		jar, err := req.Cookies()
		if err != nil {
			return http.Error(req, err)
		}
		return http.String(req, fmt.Sprint(jar.Len())).Cookie(cookie.New("a", "b"))
	})
	r.Get("/ctx", func(req *http.Request) *http.Response {
		req.Ctx = context.WithValue(req.Ctx, key{}, req.Path)
		return http.Respond(req).Header("X-A", "1", "2").Headers(map[string][]string{"X-B": {"3"}})
	})
	r.Get("/headers", func(req *http.Request) *http.Response {
		resp := http.Respond(req).Code(status.Accepted).Status("Fine").ContentType("a/b")
		for _, p := range req.Headers.Unwrap() {
			resp.Header("X-"+p.Key, p.Value)
		}
		return resp.String(strings.Join(req.Headers.Keys(), ","))
	})
	r.Get("/error", func(req *http.Request) *http.Response { return http.Error(req, status.ErrTeapot) })
	r.Get("/json", func(req *http.Request) *http.Response { return http.JSON(req, []int{1, 2, 3}) })
	r.Get("/file", func(req *http.Request) *http.Response { return http.File(req, filepath.Join(scratch, "file2.txt")) })
	r.Get("/stream", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(strings.NewReader("abc"), 3)
	})
	r.Get("/chunked", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(strings.NewReader(strings.Repeat("abc", 1000)), 0)
	})
	r.Get("/large", func(req *http.Request) *http.Response {
		return http.String(req, largeBody).Header("X-Large", largeBody[:20_000])
	})
	r.Post("/unread", ok)
	for how := 0; how < 5; how++ {
		r.Post(fmt.Sprintf("/body%d", how), func(how int) inbuilt.Handler {
			return func(req *http.Request) *http.Response {
				body, err := lib.ReadBody(req, how)
				if err != nil {
					return http.Error(req, err)
				}
				return http.String(req, fmt.Sprint(len(body)))
			}
		}(how))
	}
	r.Catch("/caught", ok)
	r.Static("/files", scratch)
	r.Alias("/alias", "/plain")
	r.Mutator(func(req *http.Request) {})
	if rapid.Bool().Draw(t, "virtual") {
		return virtual.New().Host("a.example", r).Default(r)
	}
	return r
}

var largeBody = strings.Repeat("0123456789abcdef", 2<<20/16)

// templates of requests; every # is replaced by a number not used before.
var templates = []string{
	"GET /plain HTTP/1.1\r\nHost: a.example\r\n\r\n",
	"GET /plain HTTP/1.1\r\nHost: h#.example\r\n\r\n",
	"GET /u/# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /u/#/more HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /u/#/none HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /query?k#=v#&b=%20+ HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /query?k#=" + strings.Repeat("v", 700) + "# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /plain?" + strings.Repeat("&", 600) + "# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /caught/" + strings.Repeat("long/", 150) + "# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /cookies HTTP/1.1\r\nHost: x\r\nCookie: " + strings.Repeat("a=b; ", 150) + "c#=#\r\n\r\n",
	"GET /headers HTTP/1.1\r\nHost: x\r\nLong#: " + strings.Repeat("v", 900) + "\r\n\r\n",
	"GET /query?=& HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /cookies HTTP/1.1\r\nHost: x\r\nCookie: a#=b#; c=d\r\nCookie: e=f\r\n\r\n",
	"GET /ctx HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /headers HTTP/1.1\r\nHost: x\r\nA#: b\r\nC: d#\r\nContent-Type: t/#\r\nContent-Encoding: gzip#, x\r\n\r\n",
	"HEAD /headers HTTP/1.1\r\nHost: x\r\nA#: b\r\n\r\n",
	"HEAD /file HTTP/1.1\r\nHost: x\r\n\r\n",
	"HEAD /chunked HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /error HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /json HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /file HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /stream HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /chunked HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /files/file1.txt HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /files/file#.txt HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /caught/# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /nothing# HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /%41%20# HTTP/1.1\r\nHost: x\r\n\r\n",
	"PATCH /plain HTTP/1.1\r\nHost: x\r\n\r\n",
	"OPTIONS * HTTP/1.1\r\nHost: x\r\n\r\n",
	"TRACE /plain?# HTTP/1.1\r\nHost: x\r\nA: #\r\n\r\n",
	"GET /alias HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /plain HTTP/1.1\r\nHost: x\r\nUpgrade: HTTP/1.0\r\nConnection: upgrade\r\n\r\n",
	"GET /plain HTTP/1.0\r\nHost: x\r\nConnection: keep-alive\r\n\r\n",
	"POST /unread HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nhello",
	"POST /body@ HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nhello",
	"POST /body@ HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n6\r\n world\r\n0\r\n\r\n",
	"POST /unread HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nTrailer: a\r\n\r\n5\r\nhello\r\n0\r\na: b\r\n\r\n",
}

// closing ones, for connections that end.
var closing = []string{
	"", "GET /pl", "BAD / HTTP/1.1\r\n\r\n", "GET /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: x\r\n\r\n",
	"GET /plain HTTP/1.1\r\nHost: x#\r\nConnection: close\r\n\r\n", "GET /file HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
	"POST /body@ HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\nhello", "POST /unread HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
	"GET /plain HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n", "GET / HTTP/1.1\r\n:\r\n\r\n", "GET / HTTP/1.1\r\nA#: #\r\nb",
}

func fill(t string, n *int) []byte {
	var b []byte
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '#':
			*n++
			b = append(b, fmt.Sprintf("%08d", *n)...)
		case '@':
			*n++
			b = append(b, byte('0'+*n%5))
		default:
			b = append(b, t[i])
		}
	}
	return b
}

// requests: nothing is kept of the requests a connection has had.
func requests(t *rapid.T, c *lib.Case) {
	r := makeRouter(t).Initialize()
	set := rapid.SliceOfN(rapid.SampledFrom(templates), 1, 5).Draw(t, "requests")
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{16, 512, 4096}).Draw(t, "readbuf")
	const first, total = 1000, 6000
	c.Logf("%d times in turn: %q", total, set)
	var i, number, before, grown, fdsBefore, fdsAfter int
	conn := &feed{end: io.EOF}
	conn.next = func() []byte {
		switch i {
		case first:
			before, fdsBefore = live(), descriptors()
		case total:
			grown, fdsAfter = growth(before, slack), descriptors()
			i++
			return nil
		case total + 1:
			return nil
		}
		i++
		return fill(set[i%len(set)], &number)
	}
	if p := lib.Serve(cfg, conn, encryption.Plain, r); p != "" {
		c.Failf(t, "panic: %s", p)
	}
	if i <= total {
		c.Failf(t, "the connection ended after %d requests", i)
	}
	if grown > slack {
		c.Failf(t, "%d bytes more are in use after %d further requests", grown, total-first)
	}
	if fdsAfter > fdsBefore+20 {
		c.Failf(t, "%d descriptors are open after %d requests, formerly %d", fdsAfter, total-first, fdsBefore)
	}
	c.NonTrivial(fmt.Sprint(set), cfg.TCP.ReadBufferSize)
}

var fileRequests = []string{
	"GET /files/file0.txt", "GET /files/file1.txt", "GET /files/file2.txt", "HEAD /files/file2.txt", "HEAD /files/file0.txt", "POST /files/file1.txt",
	"GET /files/sub", "GET /files/sub/", "GET /files/", "GET /files", "GET /files/sub/dir.txt", "HEAD /files/sub", "GET /files/none", "GET /files/file1.txt/", "GET /files/file1.txt/x",
	"GET /files/../x", "GET /files/%2e%2e/x", "GET /files/a%00b", "GET /file", "HEAD /file",
}

// files: those sent, or tried to, are closed right away, not when the garbage is collected.
func files(t *rapid.T, c *lib.Case) {
	r := makeRouter(t).Initialize()
	set := rapid.SliceOfN(rapid.SampledFrom(fileRequests), 1, 4).Draw(t, "requests")
	version := rapid.SampledFrom([]string{" HTTP/1.1\r\nHost: x\r\n\r\n", " HTTP/1.0\r\nHost: x\r\nConnection: keep-alive\r\n\r\n"}).Draw(t, "version")
	fail := rapid.IntRange(-1, 5).Draw(t, "failing write")
	const number = 60
	c.Logf("%d connections with %q%q, failing write: %d", number, set, version, fail)
	data := []byte(strings.Join(set, version) + version)
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	before := descriptors()
	for i := 0; i < number; i++ {
		conn := lib.NewConn([][]byte{data})
		conn.FailWriteAt = fail
		if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
			c.Failf(t, "panic: %s", p)
		}
	}
	if after := descriptors(); after > before+10 {
		c.Failf(t, "%d descriptors are open after %d connections, formerly %d", after, number, before)
	}
	c.NonTrivial(string(data), fail)
}

// queue is a listener delivering connections one after another.
type queue struct {
	next   func() net.Conn // nil: no more
	closed chan struct{}
	once   sync.Once
}

func (q *queue) Accept() (net.Conn, error) {
	if conn := q.next(); conn != nil {
		return conn, nil
	}
	<-q.closed
	return nil, net.ErrClosed
}
func (q *queue) Close() error                   { q.once.Do(func() { close(q.closed) }); return nil }
func (q *queue) Addr() net.Addr                 { return lib.Addr("192.0.2.2:80") }
func (q *queue) SetDeadline(at time.Time) error { return q.Close() }

// connections: nothing is kept of the connections there have been.
func connections(t *rapid.T, c *lib.Case) {
	fabric := makeRouter(t)
	set := rapid.SliceOfN(rapid.SampledFrom(templates), 0, 3).Draw(t, "requests")
	last := rapid.SampledFrom(closing).Draw(t, "last")
	reset := rapid.Bool().Draw(t, "reset")
	first, total := 300, 1500
	if rapid.IntRange(0, 5).Draw(t, "large") == 0 {
		first, total = 20, 80
		set = append(set, "GET /large HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	c.Logf("%d connections with the requests %q, then %q, reset: %v", total, set, last, reset)
	var k, number, before, grown, fdsBefore, fdsAfter, gorBefore, gorAfter int
	next := func() net.Conn {
		switch k {
		case first:
			before, fdsBefore, gorBefore = live(), descriptors(), runtime.NumGoroutine()
		case total:
			grown, fdsAfter, gorAfter = growth(before, slack), descriptors(), runtime.NumGoroutine()
			for i := 0; i < 50 && gorAfter > gorBefore+20; i++ {
				time.Sleep(10 * time.Millisecond)
				gorAfter = runtime.NumGoroutine()
			}
			k++
			return nil
		case total + 1:
			return nil
		}
		k++
		conn := &feed{end: io.EOF, done: make(chan struct{}), port: k}
		if reset {
			conn.end = lib.ErrReset
		}
		i := -1
		conn.next = func() []byte {
			if i++; i < len(set) {
				return fill(set[i], &number)
			}
			if i == len(set) && last != "" {
				return fill(last, &number)
			}
			return nil
		}
		return conn
	}

	if rapid.IntRange(0, 2).Draw(t, "application") == 0 {
		a := indigo.New(fmt.Sprintf("127.%d.%d.%d:%d", rapid.IntRange(1, 200).Draw(t, "a"), rapid.IntRange(0, 250).Draw(t, "b"), rapid.IntRange(1, 250).Draw(t, "c"), 20000+rapid.IntRange(0, 9999).Draw(t, "port")))
		ended := make(chan struct{})
		var prev *feed
		a.Listen("queue", indigo.Listener{Listen: func(string, string) (net.Listener, error) {
			q := &queue{closed: make(chan struct{})}
			q.next = func() net.Conn {
				if prev != nil {
					// one at a time
					<-prev.done
				}
				conn := next()
				if conn == nil {
					close(ended)
					return nil
				}
				prev = conn.(*feed)
				return conn
			}
			return q, nil
		}})
		returned := make(chan error, 1)
		go func() { returned <- a.Serve(fabric) }()
		select {
		case <-ended:
			a.Stop()
			<-returned
		case err := <-returned:
			if errors.Is(err, syscall.EADDRINUSE) {
				t.Skip("the address is in use")
			}
			c.Failf(t, "serving ended: %v", err)
		case <-time.After(60 * time.Second):
			c.Failf(t, "%d connections of %d are served in a minute", k, total)
		}
		c.Class("application")
	} else {
		r := fabric.Initialize()
		for {
			conn := next()
			if conn == nil {
				break
			}
			if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
				c.Failf(t, "panic: %s", p)
			}
		}
	}
	if grown > slack {
		c.Failf(t, "%d bytes more are in use after %d further connections", grown, total-first)
	}
	if fdsAfter > fdsBefore+20 {
		c.Failf(t, "%d descriptors are open after %d connections, formerly %d", fdsAfter, total-first, fdsBefore)
	}
	if gorAfter > gorBefore+20 {
		c.Failf(t, "%d goroutines run after %d connections, formerly %d", gorAfter, total-first, gorBefore)
	}
	c.NonTrivial(fmt.Sprint(set), last, reset)
}

// large: bodies and streams pass in pieces.
func large(t *rapid.T, c *lib.Case) {
	const size = 8 << 20
	const limit = 1 << 20
	piece := rapid.SampledFrom([]int{1000, 4096, 40000, 100000, 4 << 20}).Draw(t, "piece")
	out := rapid.Bool().Draw(t, "response")
	chunked := rapid.Bool().Draw(t, "chunked")
	how := rapid.IntRange(0, 3).Draw(t, "reading")
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{512, 4096, 65536}).Draw(t, "readbuf")
	c.Logf("response %v chunked %v in pieces of %d, read in way %d, buffer %d", out, chunked, piece, how, cfg.TCP.ReadBufferSize)
	if !out {
		piece = min(piece, 100000)
	}
	data := make([]byte, piece)
	before := live()
	peak, passed, measured := 0, 0, 0
	probe := func() {
		if passed >= measured*size/5 {
			measured++
			peak = max(peak, growth(before, limit))
		}
	}
	sent := 0
	source := func() []byte {
		if sent >= size {
			return nil
		}
		n := min(piece, size-sent)
		sent += n
		passed += n
		probe()
		return data[:n]
	}
	handler := func(req *http.Request) *http.Response {
		if out {
			announced := 0
			if !chunked {
				announced = size
			}
			return req.Respond().Attachment(&pieces{next: source}, announced)
		}
		var err error
		switch how {
		case 0:
			err = req.Body.Callback(func(b []byte) error { return nil })
		case 1:
			for err == nil {
				_, err = req.Body.Retrieve()
			}
		case 2:
			_, err = io.Copy(io.Discard, struct{ io.Reader }{req.Body})
		case 3: // left unread
		}
		if err != nil && err != io.EOF {
			return http.Error(req, err)
		}
		return http.String(req, "ok")
	}
	fabric := inbuilt.New().Get("/", handler).Post("/", handler)
	conn := &feed{end: io.EOF}
	stage := 0
	conn.next = func() []byte {
		if out {
			if stage++; stage == 1 {
				return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
			}
			return nil
		}
		switch stage {
		case 0:
			stage = 1
			if chunked {
				return []byte("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n")
			}
			return []byte(fmt.Sprintf("POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n", size))
		case 1:
			if b := source(); b != nil {
				if chunked {
					b = append([]byte(fmt.Sprintf("%x\r\n", len(b))), append(b[:len(b):len(b)], "\r\n"...)...)
				}
				return b
			}
			stage = 2
			if chunked {
				return []byte("0\r\n\r\nGET / HTTP/1.1\r\n\r\n")
			}
			return []byte("GET / HTTP/1.1\r\n\r\n")
		}
		return nil
	}
	if p := lib.Serve(cfg, conn, encryption.Plain, fabric.Initialize()); p != "" {
		c.Failf(t, "panic: %s", p)
	}
	if sent < size {
		c.Failf(t, "only %d bytes of %d were consumed", sent, size)
	}
	if out && conn.out < size {
		c.Failf(t, "only %d bytes were written of %d", conn.out, size)
	}
	if peak > limit {
		c.Failf(t, "%d bytes are in use for a body passing in pieces", peak)
	}
	c.NonTrivial(out, chunked, piece, how, cfg.TCP.ReadBufferSize)
}

type pieces struct {
	next    func() []byte
	pending []byte
}

func (p *pieces) Read(b []byte) (int, error) {
	for len(p.pending) == 0 {
		if p.pending = p.next(); p.pending == nil {
			return 0, io.EOF
		}
	}
	n := copy(b, p.pending)
	p.pending = p.pending[n:]
	return n, nil
}

// endless: a client repeating something forever gets no more memory than the limits allow.
func endless(t *rapid.T, c *lib.Case) {
	const size = 4 << 20
	const limit = 1 << 20
	prefix := rapid.SampledFrom([]string{
		"", "G", "GET /", "GET /?", "GET /a?b=", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nA: ", "GET / HTTP/1.1\r\nContent-Length: ",
		"GET / HTTP/1.1\r\nContent-Type: ", "GET / HTTP/1.1\r\nTransfer-Encoding: ", "GET / HTTP/1.1\r\nConnection: ", "GET / HTTP/1.1\r\nUpgrade: ", "GET / HTTP/1.1\r\nCookie: ", "GET / H", "GET ",
		"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n3;",
		"POST / HTTP/1.1\r\nTrailer: a\r\nTransfer-Encoding: chunked\r\n\r\n0\r\na",
	}).Draw(t, "prefix")
	unit := rapid.SampledFrom([]string{
		"a", "\r\n", "\n", "\r", " ", "0", "1", "%41", "%", "&", "a=b&", "A: b\r\n", "a#: #\r\n", "#", ",", "gzip,", "a, ", "; ", "a=b; ", ":", "\x00", "\xff", "0\r\n", "1\r\na\r\n", "0\r\n\r\n", "GET / HTTP/1.1\r\n\r\n",
		"Content-Length: 0\r\n", "Transfer-Encoding: chunked\r\n", "/", "../", "?",
	}).Draw(t, "unit")
	how := rapid.IntRange(0, 5).Draw(t, "reading")
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{512, 4096, 65536}).Draw(t, "readbuf")
	c.Logf("%q, then %q forever; read in way %d, buffer %d", prefix, unit, how, cfg.TCP.ReadBufferSize)
	c.Breadcrumb()
	handler := func(req *http.Request) *http.Response {
		switch how {
		case 0:
			_ = req.Body.Callback(func([]byte) error { return nil })
		case 1:
			_, _ = io.Copy(io.Discard, struct{ io.Reader }{req.Body})
		case 2:
			_, _ = req.Query.Unwrap()
			_, _ = req.Cookies()
		}
		return http.String(req, "ok")
	}
	before := live()
	peak, passed, measured, number := 0, 0, 0, 0
	conn := &feed{end: io.EOF}
	stage := 0
	conn.next = func() []byte {
		if stage == 0 {
			stage = 1
			if prefix != "" {
				return []byte(prefix)
			}
		}
		if passed >= measured*size/4 {
			measured++
			peak = max(peak, growth(before, limit))
		}
		if passed >= size {
			return nil
		}
		var b []byte
		for len(b) < 4000 {
			b = append(b, fill(unit, &number)...)
		}
		passed += len(b)
		return b
	}
	if p := lib.Serve(cfg, conn, encryption.Plain, inbuilt.New().Get("/", handler).Post("/", handler).Initialize()); p != "" {
		c.Failf(t, "panic: %s", p)
	}
	if peak > limit {
		c.Failf(t, "%d bytes are in use for a request that never ends", peak)
	}
	if passed < size {
		c.Class("refused")
	} else {
		c.Class("read on")
	}
	c.NonTrivial(prefix, unit, how, cfg.TCP.ReadBufferSize)
}
