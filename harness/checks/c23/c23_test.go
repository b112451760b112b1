// C23: stopping the server is orderly.
package c23

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC23(t *testing.T) {
	lib.Run(t, "C23",
		lib.Prop{Name: "stop", Quick: 350, Fn: stop},
		lib.Prop{Name: "burst", Quick: 60, Fn: burst},
		lib.Prop{Name: "bind", Quick: 120, Fn: bind},
		lib.Prop{Name: "again", Quick: 120, Fn: again},
	)
}

// patience is how long something that must happen may take; it is spent only on a violation.
const patience = 10 * time.Second

// sconn is the server's end of a connection.
type sconn struct {
	net.Conn
	closed atomic.Bool
}

func (c *sconn) Close() error {
	err := c.Conn.Close()
	c.closed.Store(true)
	return err
}

// listener hands out connections made by dial; it records what the server does with it.
type listener struct {
	name     string
	conns    chan *sconn
	stopped  chan struct{} // closed or past its deadline: nothing is accepted anymore
	failed   chan error
	once     sync.Once
	mu       sync.Mutex
	accepted []*sconn
	closes   atomic.Int32
	real     net.Listener
	addr     string // of an address the application listens on by itself
	// last are connections accepted right before the listener stops, though returned only after
	last     []*sconn
	lastWait time.Duration
	lastSeen func()
	closeErr error // of closing it, which succeeds anyway
}

// loopback returns an address nobody else is likely to use.
func loopback() string {
	return fmt.Sprintf("127.%d.%d.%d:%d", rand.IntN(200)+1, rand.IntN(250), rand.IntN(250)+1, 20000+rand.IntN(10000))
}

func newListener(name string) *listener {
	return &listener{name: name, conns: make(chan *sconn, 200), stopped: make(chan struct{}), failed: make(chan error, 1)}
}

func (l *listener) Accept() (net.Conn, error) {
	if l.real != nil {
		conn, err := l.real.Accept()
		if err != nil {
			return nil, err
		}
		c := &sconn{Conn: conn}
		l.mu.Lock()
		l.accepted = append(l.accepted, c)
		l.mu.Unlock()
		return c, nil
	}
	select {
	case <-l.stopped:
		return l.ended()
	default:
	}
	select {
	case <-l.stopped:
		return l.ended()
	case err := <-l.failed:
		return nil, err
	case c := <-l.conns:
		l.mu.Lock()
		l.accepted = append(l.accepted, c)
		l.mu.Unlock()
		return c, nil
	}
}

func (l *listener) ended() (net.Conn, error) {
	l.mu.Lock()
	if len(l.last) == 0 {
		l.mu.Unlock()
		return nil, os.ErrDeadlineExceeded
	}
	c := l.last[0]
	l.last = l.last[1:]
	l.mu.Unlock()
	time.Sleep(l.lastWait)
	l.lastSeen()
	l.mu.Lock()
	l.accepted = append(l.accepted, c)
	l.mu.Unlock()
	return c, nil
}

func (l *listener) halt() { l.once.Do(func() { close(l.stopped) }) }

func (l *listener) Close() error {
	l.closes.Add(1)
	l.halt()
	if l.real != nil {
		_ = l.real.Close()
	}
	return l.closeErr
}

func (l *listener) Addr() net.Addr { return lib.Addr(l.name) }

// unclosed returns how many accepted connections the server hasn't closed.
func (l *listener) unclosed() (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.accepted {
		if !c.closed.Load() {
			n++
		}
	}
	return n
}

// deadliner is a listener whose accepting can be interrupted.
type deadliner struct{ *listener }

func (d deadliner) SetDeadline(at time.Time) error {
	if d.real != nil {
		return d.real.(*net.TCPListener).SetDeadline(at)
	}
	if !at.IsZero() && !at.After(time.Now()) {
		d.halt()
	}
	return nil
}

// dialable is the address of a real socket.
func (l *listener) dialable() string {
	if l.real != nil {
		return l.real.Addr().String()
	}
	return l.addr
}

// dial connects a client.
func (l *listener) dial() (net.Conn, error) {
	if addr := l.dialable(); addr != "" {
		return net.DialTimeout("tcp", addr, patience)
	}
	select {
	case <-l.stopped:
		return nil, errors.New("connection refused")
	default:
	}
	ours, theirs := net.Pipe()
	l.conns <- &sconn{Conn: theirs}
	return ours, nil
}

type client struct {
	net.Conn
	id   string
	br   *bufio.Reader
	n    int
	gate chan struct{} // a handler waiting
}

func newClient(conn net.Conn, id string) *client {
	return &client{Conn: conn, id: id, br: bufio.NewReader(conn)}
}

func (c *client) send(path string) error {
	c.n++
	_ = c.SetWriteDeadline(time.Now().Add(patience))
	_, err := fmt.Fprintf(c, "GET %s?%s-%d HTTP/1.1\r\nHost: x\r\n\r\n", path, c.id, c.n)
	return err
}

// receive reads the response to the last request sent.
func (c *client) receive(within time.Duration) error {
	_ = c.SetReadDeadline(time.Now().Add(within))
	length := -1
	first := ""
	for {
		line, err := c.br.ReadString('\n')
		if err != nil {
			return err
		}
		line = strings.TrimRight(line, "\r\n")
		if first == "" {
			first = line
		}
		if line == "" {
			break
		}
		if k, v, ok := strings.Cut(line, ":"); ok && strings.EqualFold(k, "content-length") {
			fmt.Sscan(v, &length)
		}
	}
	if !strings.HasPrefix(first, "HTTP/1.1 200") || length < 0 {
		return fmt.Errorf("unexpected response %q", first)
	}
	body := make([]byte, length)
	if _, err := io.ReadFull(c.br, body); err != nil {
		return err
	}
	if want := fmt.Sprintf("%s-%d", c.id, c.n); string(body) != want {
		return fmt.Errorf("response %q to the request %q", body, want)
	}
	return nil
}

func (c *client) exchange() error {
	if err := c.send("/"); err != nil {
		return err
	}
	return c.receive(patience)
}

// app is a running application with what it reports.
type app struct {
	*indigo.App
	listeners []*listener
	returned  chan struct{}
	err       error
	onStops   atomic.Int32
	early     atomic.Int32 // connections not closed when the stop callback ran
	gates     sync.Map
	served    sync.Map // ids of connections a handler was called for
}

func (a *app) router() *inbuilt.Router {
	r := inbuilt.New()
	echo := func(req *http.Request) *http.Response {
		id := string(req.Query.Raw())
		a.served.Store(id, true)
		return http.String(req, id)
	}
	r.Get("/", echo)
	r.Get("/wait", func(req *http.Request) *http.Response {
		id := string(req.Query.Raw())
		if g, ok := a.gates.Load(id); ok {
			ch := g.(chan struct{})
			ch <- struct{}{} // in flight
			<-ch
		}
		return echo(req)
	})
	return r
}

func (a *app) unclosed() (n int) {
	for _, l := range a.listeners {
		n += l.unclosed()
	}
	return n
}

func (a *app) hasReturned() bool {
	select {
	case <-a.returned:
		return true
	default:
		return false
	}
}

func factory(l *listener, interruptible, real bool) func(string, string) (net.Listener, error) {
	return func(network, addr string) (net.Listener, error) {
		if real {
			// not an arbitrary port, which another process could use right after
			rl, err := net.Listen("tcp", loopback())
			for n := 0; err != nil && n < 20; n++ {
				rl, err = net.Listen("tcp", loopback())
			}
			if err != nil {
				return nil, err
			}
			l.real = rl
		}
		if interruptible {
			return deadliner{l}, nil
		}
		return l, nil
	}
}

var errClose = errors.New("closing failed (scripted)")

var errAccept = errors.New("accepting failed (scripted)")

func stop(t *rapid.T, c *lib.Case) {
	a := &app{returned: make(chan struct{})}
	n := rapid.IntRange(1, 4).Draw(t, "listeners")
	anyReal := false
	kinds := make([]int, n)
	for i := 0; i < n; i++ {
		kinds[i] = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "listener kind") // deadliner, not one, real
		l := newListener(fmt.Sprintf("10.0.0.%d:80", i+1))
		a.listeners = append(a.listeners, l)
		if rapid.IntRange(0, 5).Draw(t, "closing reports an error") == 0 {
			l.closeErr = errClose
		}
		if i == 0 {
			// the application's own
			kinds[i] = 3
			l.addr = loopback()
			a.App = indigo.New(l.addr)
			continue
		}
		a.App.Listen(l.name, indigo.Listener{Listen: factory(l, kinds[i] != 1, kinds[i] == 2)})
		anyReal = anyReal || kinds[i] == 2
		c.Logf("listener %d of kind %d, closing it: %v", i, kinds[i], l.closeErr)
	}
	cfg := config.Default()
	a.App.Tune(cfg)
	started := make(chan struct{})
	a.App.OnStart(func() { close(started) })
	a.App.OnStop(func() {
		a.early.Add(int32(a.unclosed()))
		a.onStops.Add(1)
	})
	go func() {
		a.err = a.App.Serve(a.router())
		close(a.returned)
	}()
	select {
	case <-started:
	case <-a.returned:
		if errors.Is(a.err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		c.Failf(t, "serving ended at once: %v", a.err)
	case <-time.After(patience):
		c.Failf(t, "the application doesn't start")
	}

	// clients before the stop
	var clients []*client
	defer func() {
		for _, cl := range clients {
			cl.Close()
		}
	}()
	nclients := rapid.IntRange(0, 4).Draw(t, "clients")
	type state struct {
		cl       *client
		inFlight chan struct{}
		half     bool
	}
	var open []*state
	for i := 0; i < nclients; i++ {
		k := rapid.IntRange(0, n-1).Draw(t, "to")
		conn, err := a.listeners[k].dial()
		if err != nil {
			c.Failf(t, "can't connect: %v", err)
		}
		cl := newClient(conn, fmt.Sprintf("c%d", i))
		clients = append(clients, cl)
		if err := cl.exchange(); err != nil {
			c.Failf(t, "before the stop: %v", err)
		}
		s := &state{cl: cl}
		switch kind := rapid.IntRange(0, 3).Draw(t, "client state"); kind {
		case 0:
			c.Logf("client %d of listener %d is gone before the stop", i, k)
			cl.Close()
			continue
		case 1:
			c.Logf("client %d of listener %d is idle", i, k)
		case 2:
			c.Logf("client %d of listener %d has a request in flight", i, k)
			gate := make(chan struct{})
			a.gates.Store(fmt.Sprintf("%s-%d", cl.id, cl.n+1), gate)
			if err := cl.send("/wait"); err != nil {
				c.Failf(t, "before the stop: %v", err)
			}
			select {
			case <-gate:
			case <-time.After(patience):
				c.Failf(t, "the handler isn't called")
			}
			s.inFlight = gate
		case 3:
			c.Logf("client %d of listener %d has sent a half of a request", i, k)
			cl.n++
			if _, err := fmt.Fprintf(cl, "GET /?%s-%d HT", cl.id, cl.n); err != nil {
				c.Failf(t, "before the stop: %v", err)
			}
			s.half = true
		}
		open = append(open, s)
	}
	if a.hasReturned() {
		c.Failf(t, "serving ended before any stop: %v", a.err)
	}

	// clients connecting at the time of the stop
	nrace := rapid.IntRange(0, 2).Draw(t, "racing clients")
	var racing sync.WaitGroup
	var raceMu sync.Mutex
	var raceErr error
	begin := make(chan struct{})
	for i := 0; i < nrace; i++ {
		l := a.listeners[rapid.IntRange(0, n-1).Draw(t, "racing to")]
		pause := time.Duration(rapid.IntRange(0, 200).Draw(t, "microseconds")) * time.Microsecond
		racing.Add(1)
		go func(i int) {
			defer racing.Done()
			<-begin
			time.Sleep(pause)
			conn, err := l.dial()
			if err != nil {
				return
			}
			defer conn.Close()
			cl := newClient(conn, fmt.Sprintf("r%d", i))
			if cl.SetWriteDeadline(time.Now().Add(500 * time.Millisecond)); err != nil {
				return
			}
			if _, err := fmt.Fprintf(cl, "GET /?%s-1 HTTP/1.1\r\n\r\n", cl.id); err != nil {
				return
			}
			cl.n = 1
			if err := cl.receive(500 * time.Millisecond); err != nil {
				return
			}
			// it is served, so it has to be till its end
			if err := cl.exchange(); err != nil {
				raceMu.Lock()
				raceErr = fmt.Errorf("a connection accepted isn't served to its end: %w", err)
				raceMu.Unlock()
			}
		}(i)
	}

	how := rapid.IntRange(0, 2).Draw(t, "stop")
	var want error
	var failing *listener
	if how == 2 {
		for _, l := range a.listeners {
			if l.dialable() == "" {
				failing = l
			}
		}
		if failing == nil {
			how = 1
		}
	}
	// connections on the verge of being accepted
	var lastDone sync.WaitGroup
	var lasts []net.Conn
	var afterStop atomic.Bool
	if l := rapid.SampledFrom(a.listeners).Draw(t, "last to"); l.dialable() == "" && l != failing {
		k := rapid.SampledFrom([]int{1, 1, 2, 20}).Draw(t, "last connections")
		l.mu.Lock()
		l.lastWait = time.Duration(rapid.IntRange(0, 3000/k).Draw(t, "last after")) * time.Microsecond
		l.lastSeen = func() {
			if a.onStops.Load() > 0 {
				afterStop.Store(true)
			}
		}
		for i := 0; i < k; i++ {
			ours, theirs := net.Pipe()
			l.last = append(l.last, &sconn{Conn: theirs})
			if k > 2 {
				// disconnected already
				ours.Close()
				continue
			}
			lasts = append(lasts, ours)
			lastDone.Add(1)
			go func() {
				defer lastDone.Done()
				defer ours.Close()
				cl := newClient(ours, "last")
				if cl.send("/") == nil && cl.receive(patience) == nil {
					time.Sleep(500 * time.Microsecond)
				}
			}()
		}
		l.mu.Unlock()
		c.Class("accepted at the stop")
	}
	close(begin)
	switch how {
	case 0:
		want = status.ErrGracefulShutdown
		within(t, c, "GracefulStop doesn't return", a.App.GracefulStop)
	case 1:
		want = status.ErrShutdown
		within(t, c, "Stop doesn't return", a.App.Stop)
	case 2:
		want = errAccept
		failing.failed <- errAccept
	}
	c.Logf("stop %d (graceful, immediate, failing listener)", how)

	// a listener that can't be interrupted returns connections made after the stop; these aren't served
	if how == 0 && len(open) > 0 {
		var paused, stubborn *listener
		for i, l := range a.listeners {
			switch kinds[i] {
			case 0:
				paused = l
			case 1:
				if len(l.last) == 0 {
					stubborn = l
				}
			}
		}
		if paused != nil && stubborn != nil && rapid.IntRange(0, 3).Draw(t, "to the uninterruptible one") == 0 {
			select {
			case <-paused.stopped:
			case <-time.After(patience):
				c.Failf(t, "the listener isn't interrupted by the graceful stop")
			}
			time.Sleep(300 * time.Millisecond) // the stop has reached every listener
			conn, err := stubborn.dial()
			if err == nil {
				cl := newClient(conn, "u")
				_ = cl.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
				if _, err = fmt.Fprintf(cl, "GET /?u-1 HTTP/1.1\r\n\r\n"); err == nil {
					cl.n = 1
					err = cl.receive(300 * time.Millisecond)
				}
				cl.Close()
				if err == nil {
					c.Failf(t, "a connection made after the graceful stop is served")
				}
			}
			c.Class("uninterruptible listener after the stop")
		}
	}

	// clients connecting after the stop: from some moment on, none of them is served
	if (how == 0 || how == 1) && len(open) > 0 && rapid.Bool().Draw(t, "late clients") {
		l := a.listeners[rapid.IntRange(0, n-1).Draw(t, "late to")]
		refused := false
		for i := 0; i < 200 && !refused; i++ {
			conn, err := l.dial()
			if err != nil {
				refused = true
				break
			}
			cl := newClient(conn, fmt.Sprintf("l%d", i))
			_ = cl.SetWriteDeadline(time.Now().Add(30 * time.Millisecond))
			_, err = fmt.Fprintf(cl, "GET /?%s-1 HTTP/1.1\r\n\r\n", cl.id)
			if err == nil {
				cl.n = 1
				err = cl.receive(30 * time.Millisecond)
			}
			refused = err != nil
			cl.Close()
			time.Sleep(15 * time.Millisecond)
		}
		if !refused {
			c.Failf(t, "connections are still served long after the stop")
		}
		// the ones after it, at once
		if how == 0 {
			// the stop has taken effect; look for later connections being served
			for i := 0; i < 3; i++ {
				conn, err := l.dial()
				if err != nil {
					break
				}
				cl := newClient(conn, fmt.Sprintf("z%d", i))
				_ = cl.SetWriteDeadline(time.Now().Add(10 * time.Millisecond))
				_, err = fmt.Fprintf(cl, "GET /?%s-1 HTTP/1.1\r\n\r\n", cl.id)
				if err == nil {
					cl.n = 1
					err = cl.receive(10 * time.Millisecond)
				}
				cl.Close()
				if err == nil {
					// a connection refused for another reason (load) could have come before the stop took
					// effect; not so if connections go on being served
					time.Sleep(500 * time.Millisecond)
					if i == 2 {
						c.Failf(t, "connections are served after the graceful stop")
					}
				}
			}
		}
		c.Class("late clients")
	}

	if how != 0 {
		// an immediate stop doesn't wait for anybody to close the listeners
		for i, l := range a.listeners {
			deadline := time.Now().Add(patience)
			for l.addr == "" && l.closes.Load() == 0 {
				if time.Now().After(deadline) {
					c.Failf(t, "listener %d isn't closed by the stop while connections are open", i)
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
	}

	// the clients accepted before are served to their end, in any order
	order := rapid.Permutation(open).Draw(t, "order of ending")
	for i, s := range order {
		if a.hasReturned() {
			c.Failf(t, "serving ended (%v) with %d connections still being served", a.err, len(order)-i)
		}
		if a.onStops.Load() > 0 {
			c.Failf(t, "the stop callback is called with %d connections still being served", len(order)-i)
		}
		if s.half {
			if _, err := fmt.Fprintf(s.cl, "TP/1.1\r\nHost: x\r\n\r\n"); err != nil {
				c.Failf(t, "client %s isn't served to its end: %v", s.cl.id, err)
			}
			if err := s.cl.receive(patience); err != nil {
				c.Failf(t, "client %s isn't served to its end: %v", s.cl.id, err)
			}
		}
		if s.inFlight != nil {
			s.inFlight <- struct{}{}
			if err := s.cl.receive(patience); err != nil {
				c.Failf(t, "client %s isn't served to its end: %v", s.cl.id, err)
			}
		}
		for k := rapid.IntRange(0, 2).Draw(t, "more requests"); k > 0; k-- {
			if err := s.cl.exchange(); err != nil {
				c.Failf(t, "client %s isn't served to its end: %v", s.cl.id, err)
			}
		}
		if rapid.Bool().Draw(t, "pause") {
			time.Sleep(300 * time.Microsecond)
		}
		if a.hasReturned() {
			c.Failf(t, "serving ended (%v) with %d connections still being served", a.err, len(order)-i)
		}
		s.cl.Close()
	}
	racing.Wait()
	if raceErr != nil {
		c.Failf(t, "%v", raceErr)
	}
	select {
	case <-a.returned:
	case <-time.After(patience):
		c.Failf(t, "all connections have ended, but serving hasn't")
	}
	left := a.unclosed()
	if left > 0 {
		c.Failf(t, "serving ended with %d connections not closed", left)
	}
	if got := a.onStops.Load(); got != 1 {
		c.Failf(t, "the stop callback is called %d times", got)
	}
	for _, conn := range lasts {
		conn.Close() // if it hasn't been accepted
	}
	lastDone.Wait()
	if afterStop.Load() {
		c.Failf(t, "a connection is accepted after the stop callback")
	}
	if got := a.early.Load(); got > 0 {
		c.Failf(t, "the stop callback is called with %d connections not closed", got)
	}
	if !errors.Is(a.err, want) {
		c.Failf(t, "serving ended by %v instead of %v", a.err, want)
	}
	for i, l := range a.listeners {
		if l.addr == "" && l.closes.Load() == 0 {
			c.Failf(t, "listener %d isn't closed", i)
		}
		if addr := l.dialable(); addr != "" {
			if conn, err := net.DialTimeout("tcp", addr, patience); err == nil {
				conn.Close()
				c.Failf(t, "listener %d still listens", i)
			}
		}
	}
	time.Sleep(time.Millisecond)
	if got := a.onStops.Load(); got != 1 {
		c.Failf(t, "the stop callback is called %d times", got)
	}
	if len(open) > 0 {
		c.NonTrivial(fmt.Sprint(kinds), len(open), how, nrace, fmt.Sprint(order), nclients)
		c.Class(fmt.Sprintf("connections open at stop %d", how))
	}
	if anyReal {
		c.Class("real sockets")
	}
}

func within(t *rapid.T, c *lib.Case, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
		c.Failf(t, "%s", what)
	}
}

// burst: of several stops before any takes effect, the first one counts.
func burst(t *rapid.T, c *lib.Case) {
	addr := loopback()
	a := indigo.New(addr)
	graceful := rapid.SliceOfN(rapid.Bool(), 1, 6).Draw(t, "stops, graceful or not")
	c.Logf("%v", graceful)
	a.OnStart(func() {
		for _, g := range graceful {
			if g {
				a.GracefulStop()
			} else {
				a.Stop()
			}
		}
	})
	stops := 0
	a.OnStop(func() { stops++ })
	rounds := rapid.IntRange(1, 2).Draw(t, "rounds")
	for i := 0; i < rounds; i++ {
		var err error
		within(t, c, "the application doesn't end", func() { err = a.Serve(inbuilt.New()) })
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		want := error(status.ErrShutdown)
		if graceful[0] {
			want = status.ErrGracefulShutdown
		}
		if !errors.Is(err, want) {
			c.Failf(t, "serving ended by %v instead of %v", err, want)
		}
		if stops != i+1 {
			c.Failf(t, "the stop callback is called %d times in %d rounds", stops, i+1)
		}
	}
	if len(graceful) > 1 {
		c.NonTrivial(fmt.Sprint(graceful), rounds)
	}
}

// bind: any address can't be bound.
func bind(t *rapid.T, c *lib.Case) {
	n := rapid.IntRange(1, 5).Draw(t, "listeners")
	bad := rapid.IntRange(0, n-1).Draw(t, "failing")
	errBind := errors.New("can't bind (scripted)")
	var ls []*listener
	var blocker net.Listener
	var a *indigo.App
	own := loopback()
	a = indigo.New(own)
	inUse := rapid.IntRange(0, 3).Draw(t, "address in use") == 0
	bound, stops := 0, 0
	for i := 0; i < n; i++ {
		l := newListener(fmt.Sprintf("10.0.0.%d:80", i+1))
		ls = append(ls, l)
		if rapid.IntRange(0, 5).Draw(t, "closing reports an error") == 0 {
			l.closeErr = errClose
		}
		real := rapid.IntRange(0, 3).Draw(t, "real") == 0
		make := factory(l, rapid.Bool().Draw(t, "deadliner"), real)
		c.Logf("listener %d, real: %v, failing: %v", i, real, i == bad)
		if i != bad {
			a.Listen(l.name, indigo.Listener{Listen: make})
			continue
		}
		if inUse {
			var err error
			if blocker, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
				t.Skip("no port")
			}
			defer blocker.Close()
			a.Listen(blocker.Addr().String())
		} else {
			a.Listen(l.name, indigo.Listener{Listen: func(string, string) (net.Listener, error) { return nil, errBind }})
		}
	}
	a.OnBind(func(string) { bound++ })
	a.OnStop(func() { stops++ })
	started := false
	a.OnStart(func() { started = true })
	returned := make(chan error, 1)
	go func() { returned <- a.Serve(inbuilt.New()) }()
	var err error
	select {
	case err = <-returned:
	case <-time.After(patience):
		c.Failf(t, "serving doesn't report that an address can't be bound")
	}
	if errors.Is(err, syscall.EADDRINUSE) && !inUse {
		t.Skip("the address is in use")
	}
	if conn, err := net.DialTimeout("tcp", own, patience); err == nil {
		conn.Close()
		c.Failf(t, "the address %s is left open", own)
	}
	if err == nil || !inUse && !errors.Is(err, errBind) {
		c.Failf(t, "serving reports %v", err)
	}
	if started {
		c.Failf(t, "the application is reported to be started")
	}
	for i, l := range ls {
		if i < bad && l.closes.Load() == 0 {
			c.Failf(t, "listener %d is left open", i)
		}
		if l.real != nil {
			if conn, err := net.DialTimeout("tcp", l.real.Addr().String(), patience); err == nil {
				conn.Close()
				c.Failf(t, "listener %d still listens", i)
			}
		}
	}
	if bound > bad+1 {
		c.Failf(t, "%d addresses are reported to be bound, only %d were", bound, bad+1)
	}
	{
		c.NonTrivial(n, bad, inUse, bound)
	}
}

// again serves the same application repeatedly: nothing is left of the previous time.
func again(t *rapid.T, c *lib.Case) {
	before := runtime.NumGoroutine()
	own := loopback()
	a := indigo.New(own)
	n := rapid.IntRange(0, 3).Draw(t, "more listeners")
	current := make([]*listener, n)
	kinds := make([]int, n)
	unbindable := -1
	errBind := errors.New("can't bind (scripted)")
	for i := range current {
		i := i
		kinds[i] = rapid.IntRange(0, 2).Draw(t, "listener kind") // deadliner, not one, real
		a.Listen(fmt.Sprintf("10.0.0.%d:80", i+1), indigo.Listener{Listen: func(network, addr string) (net.Listener, error) {
			if i == unbindable {
				return nil, errBind
			}
			current[i] = newListener(addr)
			return factory(current[i], kinds[i] != 1, kinds[i] == 2)(network, addr)
		}})
	}
	w := &app{App: a}
	fabric := w.router()
	var started chan struct{}
	stops := 0
	var atStart func()
	a.OnStart(func() {
		if atStart != nil {
			atStart()
		}
		close(started)
	})
	nested := rapid.Bool().Draw(t, "stop within the callback")
	a.OnStop(func() {
		stops++
		if nested {
			a.Stop() // it's stopping already, so this doesn't matter
		}
	})
	rounds := rapid.IntRange(2, 4).Draw(t, "rounds")
	key := ""
	for round := 0; round < rounds; round++ {
		// graceful, immediate, failing listener, failing to bind, before serving, at the start
		how := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 4, 5}).Draw(t, "stop")
		var failing int
		if how == 2 || how == 3 {
			if n == 0 {
				how = 1
			} else if failing = rapid.IntRange(0, n-1).Draw(t, "failing"); how == 2 && kinds[failing] == 2 {
				how = 0
			}
		}
		c.Logf("round %d: stop %d (graceful, immediate, failing listener, failing to bind, before serving, at the start)", round, how)
		key += fmt.Sprint(how)
		unbindable = -1
		if how == 3 {
			unbindable = failing
		}
		started = make(chan struct{})
		returned := make(chan error, 1)
		atStart = nil
		stopsBefore := stops
		switch how {
		case 4:
			within(t, c, "Stop doesn't return", a.Stop)
		case 5:
			atStart = a.GracefulStop
		}
		go func() { returned <- a.Serve(fabric) }()
		var got error
		want := []error{status.ErrGracefulShutdown, status.ErrShutdown, errAccept, errBind, status.ErrShutdown, status.ErrGracefulShutdown}[how]
		if how > 3 {
			stopsBefore++
		}
		if how < 3 {
			select {
			case <-started:
			case err := <-returned:
				if errors.Is(err, syscall.EADDRINUSE) {
					t.Skip("the address is in use")
				}
				c.Failf(t, "round %d: serving ended at once: %v", round, err)
			case <-time.After(patience):
				c.Failf(t, "round %d: the application doesn't start", round)
			}
			stopsBefore = stops
			var clients []*client
			for i := -1; i < n; i++ {
				var conn net.Conn
				var err error
				if i == -1 {
					conn, err = net.DialTimeout("tcp", own, patience)
				} else {
					conn, err = current[i].dial()
				}
				if err != nil {
					c.Failf(t, "round %d: can't connect to listener %d: %v", round, i, err)
				}
				cl := newClient(conn, fmt.Sprintf("%d-%d", round, i))
				if err := cl.exchange(); err != nil {
					c.Failf(t, "round %d: listener %d: %v", round, i, err)
				}
				clients = append(clients, cl)
			}
			early := rapid.Bool().Draw(t, "clients leave first")
			leave := func() {
				for _, cl := range clients {
					cl.Close()
				}
			}
			if early {
				leave()
			}
			switch how {
			case 0:
				within(t, c, "GracefulStop doesn't return", a.GracefulStop)
			case 1:
				within(t, c, "Stop doesn't return", a.Stop)
			case 2:
				current[failing].failed <- errAccept
			}
			if !early {
				if how < 2 {
					// once more, which doesn't matter
					for k := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "repeated stops"); k > 0; k-- {
						within(t, c, "a repeated stop doesn't return", rapid.SampledFrom([]func(){a.Stop, a.GracefulStop}).Draw(t, "stop kind"))
					}
				}
				leave()
			}
			stopsBefore++
		}
		select {
		case got = <-returned:
		case <-time.After(patience):
			c.Failf(t, "round %d: serving doesn't end", round)
		}
		if errors.Is(got, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		if !errors.Is(got, want) {
			c.Failf(t, "round %d: serving ended by %v instead of %v", round, got, want)
		}
		if stops != stopsBefore {
			c.Failf(t, "round %d: the stop callback is called %d times, expected %d", round, stops, stopsBefore)
		}
	}
	deadline := time.Now().Add(patience)
	for runtime.NumGoroutine() > before {
		if time.Now().After(deadline) {
			stacks := make([]byte, 1<<16)
			c.Failf(t, "%d goroutines are left running: %s", runtime.NumGoroutine()-before, stacks[:runtime.Stack(stacks, true)])
		}
		time.Sleep(100 * time.Microsecond)
	}
	c.NonTrivial(fmt.Sprint(kinds), key)
	c.Class("served again")
}
