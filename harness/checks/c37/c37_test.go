// C37: a silent client is let go after the read timeout, an active one never is.
package c37

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

var outer *testing.T

func TestC37(t *testing.T) {
	outer = t
	lib.Run(t, "C37",
		lib.Prop{Name: "virtual", Quick: 1200, Fn: virtual},
		lib.Prop{Name: "app", Quick: 25, Fn: app},
	)
}

// request is one request of the script and how its handler behaves.
type request struct {
	head, body    []byte
	payload       []byte
	read          int           // way of reading the body, -1: not at all
	before, after time.Duration // the handler's pauses around reading
}

func (r *request) wire() []byte { return append(bytes.Clone(r.head), r.body...) }

func genRequest(t *rapid.T, i int, timeout time.Duration) *request {
	r := &request{read: -1}
	switch kind := rapid.IntRange(0, 2).Draw(t, "body kind"); kind {
	case 0:
		r.head = []byte(fmt.Sprintf("GET /%d HTTP/1.1\r\nHost: x\r\n\r\n", i))
	case 1:
		r.payload = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "body")
		r.head = []byte(fmt.Sprintf("POST /%d HTTP/1.1\r\nContent-Length: %d\r\n\r\n", i, len(r.payload)))
		r.body = r.payload
	case 2:
		r.head = []byte(fmt.Sprintf("POST /%d HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", i))
		for k := rapid.IntRange(0, 3).Draw(t, "chunks"); k > 0; k-- {
			chunk := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "chunk")
			r.payload = append(r.payload, chunk...)
			r.body = append(r.body, fmt.Sprintf("%x\r\n%s\r\n", len(chunk), chunk)...)
		}
		r.body = append(r.body, "0\r\n\r\n"...)
	}
	r.read = rapid.IntRange(-1, 4).Draw(t, "reading")
	r.before, r.after = genPause(t, timeout), genPause(t, timeout)
	return r
}

func genPause(t *rapid.T, timeout time.Duration) time.Duration {
	switch rapid.IntRange(0, 5).Draw(t, "pause") {
	case 0:
		return timeout * time.Duration(rapid.IntRange(1, 5).Draw(t, "times"))
	case 1:
		return timeout/time.Duration(rapid.SampledFrom([]int{2, 3, 10, 20, 100}).Draw(t, "part")) + 1
	}
	return 0
}

type seen struct {
	id   int
	body []byte
	err  error
}

// virtual serves a scripted client in virtual time: what is measured is exact.
func virtual(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 5, 64, 4096}).Draw(t, "readbuf")
	if rapid.IntRange(0, 3).Draw(t, "default timeout") > 0 {
		cfg.TCP.ReadTimeout = time.Duration(rapid.SampledFrom([]int64{2, 1000, 1e6, 3e7, 1e9, 60e9, 3600e9, 36000e9, 1e15}).Draw(t, "timeout"))
	}
	timeout := cfg.TCP.ReadTimeout
	n := rapid.IntRange(0, 4).Draw(t, "requests")
	var reqs []*request
	var stream []byte
	var ends []int
	var sleeps time.Duration
	for i := 0; i < n; i++ {
		r := genRequest(t, i, timeout)
		reqs = append(reqs, r)
		stream = append(stream, r.wire()...)
		ends = append(ends, len(stream))
		sleeps += r.before + r.after
		c.Logf("request %d: %s read %d before %s after %s", i, lib.Q(r.wire()), r.read, r.before, r.after)
	}
	// the client stops at any point
	stop := len(stream)
	if rapid.Bool().Draw(t, "stops in the middle") {
		stop = rapid.IntRange(0, len(stream)).Draw(t, "stop")
	}
	segs := lib.Split(stream[:stop], lib.GenCuts(t, stop))
	if stop == 0 {
		segs = nil
	}
	gaps := make([]time.Duration, len(segs))
	for i := range gaps {
		switch rapid.IntRange(0, 3).Draw(t, "gap") {
		case 0:
			gaps[i] = timeout - 1
		case 1:
			gaps[i] = timeout / time.Duration(rapid.SampledFrom([]int{2, 3, 10, 20, 100}).Draw(t, "part"))
		}
	}
	// and speaks too late, or not at all
	late := rapid.Bool().Draw(t, "late")
	c.Logf("timeout %s readbuf %d; segments %v of %d bytes, gaps %v, late data %v", timeout, cfg.TCP.ReadBufferSize, lens(segs), len(stream), gaps, late)
	c.Breadcrumb()

	var problem string
	var calls []seen
	var out []byte
	var closes int
	var ended, fell time.Duration
	fail := func(format string, args ...any) {
		if problem == "" {
			problem = fmt.Sprintf(format, args...)
		}
	}
	synctest.Test(outer, func(*testing.T) {
		start := time.Now()
		ours, theirs := net.Pipe()
		handler := func(req *http.Request) *http.Response {
			var id int
			if _, err := fmt.Sscanf(req.Path, "/%d", &id); err != nil || id >= len(reqs) {
				fail("unexpected request %q", req.Path)
				return http.Respond(req)
			}
			r := reqs[id]
			time.Sleep(r.before)
			s := seen{id: id}
			if r.read >= 0 {
				s.body, s.err = lib.ReadBody(req, r.read)
			}
			calls = append(calls, s)
			time.Sleep(r.after)
			return http.String(req, fmt.Sprint(id))
		}
		onError := func(req *http.Request) *http.Response {
			if req.Env.Error == status.ErrCloseConnection {
				closes++
			} else {
				fail("unexpected error %v", req.Env.Error)
			}
			return http.Respond(req)
		}
		served := make(chan struct{})
		go func() {
			defer close(served)
			if p := lib.Serve(cfg, theirs, encryption.Plain, simple.New(handler, onError).Initialize()); p != "" {
				fail("panic: %s", p)
			}
			ended = time.Since(start)
			theirs.Close()
		}()
		drained := make(chan struct{})
		go func() {
			defer close(drained)
			out, _ = io.ReadAll(ours)
		}()
		for i, seg := range segs {
			time.Sleep(gaps[i])
			if _, err := ours.Write(seg); err != nil {
				fail("the client is disconnected %s after start, though never silent for the timeout (segment %d): %v", time.Since(start), i, err)
				break
			}
		}
		fell = time.Since(start)
		if late && problem == "" {
			time.Sleep(timeout + sleeps + 1)
			if _, err := ours.Write([]byte("GET /0 HTTP/1.1\r\n\r\n")); err == nil {
				fail("the client is still heard %s after its last byte", time.Since(start)-fell)
				ours.Close()
			}
		}
		// a server waiting forever deadlocks the bubble, so bound it
		select {
		case <-served:
		case <-time.After(100*timeout + 10*sleeps + time.Hour):
			fail("the silent client is never let go")
			ours.Close()
			theirs.Close()
			<-served
		}
		<-drained
		ours.Close()
	})
	if problem != "" {
		c.Failf(t, "%s", problem)
	}
	if silence := ended - fell; silence < timeout || silence > timeout+sleeps {
		c.Failf(t, "the client is let go %s after its last byte, the timeout is %s (and handlers took %s)", silence, timeout, sleeps)
	}
	if closes != 1 {
		c.Failf(t, "the router is told %d times that the connection is closed", closes)
	}
	complete := 0
	for _, end := range ends {
		if end <= stop {
			complete++
		}
	}
	for i, s := range calls {
		if s.id != i {
			c.Failf(t, "request %d is handled as number %d", s.id, i)
		}
		r := reqs[i]
		if r.read < 0 {
			continue
		}
		if i < complete && (s.err != nil || !bytes.Equal(s.body, r.payload)) {
			c.Failf(t, "request %d: body %q (%v), sent %q", i, s.body, s.err, r.payload)
		}
		if i >= complete && s.err == nil && len(r.payload) > 0 && !bytes.Equal(s.body, r.payload) {
			c.Failf(t, "request %d: the client fell silent in the body, which is read as complete: %q of %q", i, s.body, r.payload)
		}
	}
	if len(calls) < complete {
		c.Failf(t, "%d requests are complete, %d are handled", complete, len(calls))
	}
	resps, _, err := lib.ParseAll(out, nil)
	if err != nil {
		c.Failf(t, "responses %s: %v", lib.Q(out), err)
	}
	if len(resps) < complete || len(resps) > complete+1 {
		c.Failf(t, "%d requests are complete, %d responses: %s", complete, len(resps), lib.Q(out))
	}
	for i, resp := range resps {
		if resp.Code != 200 || string(resp.Body) != fmt.Sprint(i) {
			c.Failf(t, "response %d is %d %q", i, resp.Code, resp.Body)
		}
	}
	if len(segs) > 1 {
		c.NonTrivial(string(stream[:stop]), fmt.Sprint(gaps), timeout)
	}
	switch {
	case stop == 0:
		c.Class("nothing sent")
	case complete < n:
		c.Class("silent inside a request")
	default:
		c.Class("silent after a response")
	}
}

func lens(segs [][]byte) (l []int) {
	for _, s := range segs {
		l = append(l, len(s))
	}
	return l
}

func timedOut(err error) bool {
	ne := net.Error(nil)
	return errors.As(err, &ne) && ne.Timeout()
}

// app does the same with an application on a real socket; only what load can't disturb is
// asserted there: whoever is silent is let go, so a graceful stop completes though clients stay.
func app(t *rapid.T, c *lib.Case) {
	cfg := config.Config{}
	cfg.TCP.ReadTimeout = time.Duration(rapid.IntRange(5, 60).Draw(t, "timeout")) * time.Millisecond
	addr := fmt.Sprintf("127.%d.%d.%d:%d", rapid.IntRange(1, 200).Draw(t, "a"), rapid.IntRange(0, 250).Draw(t, "b"), rapid.IntRange(1, 250).Draw(t, "c"), 20000+rapid.IntRange(0, 9999).Draw(t, "port"))
	a := indigo.New(addr)
	tune := rapid.Bool().Draw(t, "tune first")
	var second net.Listener
	listen := func() {
		a.Listen("second", indigo.Listener{Listen: func(network, _ string) (net.Listener, error) {
			var err error
			second, err = net.Listen("tcp", "127.0.0.1:0")
			return second, err
		}})
	}
	if tune {
		a.Tune(cfg)
		listen()
	} else {
		listen()
		a.Tune(cfg)
	}
	c.Logf("timeout %s at %s", cfg.TCP.ReadTimeout, addr)
	started, returned := make(chan struct{}), make(chan error, 1)
	a.OnStart(func() { close(started) })
	echo := func(req *http.Request) *http.Response { return http.String(req, req.Path) }
	go func() { returned <- a.Serve(simple.New(echo, echo)) }()
	select {
	case <-started:
	case err := <-returned:
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		c.Failf(t, "serving ended at once: %v", err)
	}
	n := rapid.IntRange(1, 4).Draw(t, "clients")
	var wg sync.WaitGroup
	var mu sync.Mutex
	var problem string
	for i := 0; i < n; i++ {
		to := addr
		if rapid.Bool().Draw(t, "second") {
			to = second.Addr().String()
		}
		text := rapid.SampledFrom([]string{"", "GET /", "GET / HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 10\r\n\r\nabc", "GET / HTTP/1.1\r\n\r\nGE"}).Draw(t, "text")
		pause := time.Duration(rapid.IntRange(0, 30).Draw(t, "pause")) * time.Millisecond
		c.Logf("client %d sends %q to %s, after %s", i, text, to, pause)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			conn, err := net.DialTimeout("tcp", to, 10*time.Second)
			if err != nil {
				return
			}
			defer conn.Close()
			time.Sleep(pause)
			if _, err := io.WriteString(conn, text); err != nil {
				return // let go already
			}
			_ = conn.SetReadDeadline(time.Now().Add(15 * time.Second))
			_, err = io.ReadAll(conn)
			if timedOut(err) {
				// a connection that was in the queue of the socket when it was closed might not have
				// been told so: it's reset as soon as it sends anything, unless it's still served
				_ = conn.SetDeadline(time.Now().Add(5 * time.Second))
				for err = nil; err == nil; time.Sleep(100 * time.Millisecond) {
					_, err = io.WriteString(conn, "\r\n")
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if timedOut(err) {
				problem = fmt.Sprintf("client %d is silent, but not let go", i)
			}
		}(i)
	}
	stopAfter := time.Duration(rapid.IntRange(0, 40).Draw(t, "stop after")) * time.Millisecond
	time.Sleep(stopAfter)
	a.GracefulStop()
	select {
	case err := <-returned:
		if err != status.ErrGracefulShutdown {
			c.Failf(t, "serving returns %v", err)
		}
	case <-time.After(12 * time.Second):
		c.Failf(t, "silent clients keep the application from stopping")
	}
	wg.Wait()
	if problem != "" {
		c.Failf(t, "%s", problem)
	}
	c.NonTrivial(addr, n, stopAfter, cfg.TCP.ReadTimeout)
}
