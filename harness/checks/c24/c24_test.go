// C24: every listener serves its own connections with its own settings.
package c24

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

var certFile, keyFile string

func TestC24(t *testing.T) {
	dir := t.TempDir()
	// where self-signed certificates are kept
	t.Setenv("XDG_CACHE_HOME", filepath.Join(dir, "cache"))
	certFile, keyFile = filepath.Join(dir, "cert.pem"), filepath.Join(dir, "key.pem")
	if err := makeCert(); err != nil {
		t.Fatal(err)
	}
	lib.Run(t, "C24",
		lib.Prop{Name: "listeners", Quick: 400, Fn: listeners},
		lib.Prop{Name: "bound", Quick: 500, Fn: bound},
	)
}

func makeCert() error {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour)}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		return err
	}
	kb, err := x509.MarshalPKCS8PrivateKey(key)
	if err != nil {
		return err
	}
	if err := os.WriteFile(certFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); err != nil {
		return err
	}
	return os.WriteFile(keyFile, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}), 0o600)
}

const patience = 10 * time.Second

func loopback() string {
	return fmt.Sprintf("127.%d.%d.%d:%d", rand.IntN(200)+1, rand.IntN(250), rand.IntN(250)+1, 20000+rand.IntN(10000))
}

type kind int

const (
	plain    kind = iota // Listen(addr)
	custom               // a handler serving HTTP with a mark of its own
	raw                  // a handler speaking something else
	https                // HTTPS
	auto                 // AutoHTTPS
	wrapping             // a custom Listen, the default handler
	nkinds
)

var kindNames = []string{"plain", "custom handler", "raw handler", "HTTPS", "AutoHTTPS", "custom Listen"}

// wrapped hides what kind of listener it is.
type wrapped struct{ net.Listener }

func (w wrapped) Accept() (net.Conn, error) {
	conn, err := w.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return struct{ net.Conn }{conn}, nil
}

type endpoint struct {
	wrapped bool // the listener isn't a TCP listener by its type
	kind    kind
	addr    string
	mark    encryption.Token
	conns   atomic.Int32
	// value of the default header X-Set, "" if there's none
	setting string
}

var dials atomic.Int32

func (e *endpoint) dial() (net.Conn, error) {
	if e.kind == https || e.kind == auto {
		// every third client knows nothing newer than TLS 1.2
		version := uint16(0)
		if dials.Add(1)%3 == 0 {
			version = tls.VersionTLS12
		}
		return tls.DialWithDialer(&net.Dialer{Timeout: patience}, "tcp", e.addr, &tls.Config{InsecureSkipVerify: true, MaxVersion: version})
	}
	return net.DialTimeout("tcp", e.addr, patience)
}

func newRouter() *inbuilt.Router {
	r := inbuilt.New()
	h := func(req *http.Request) *http.Response {
		id := req.Headers.Value("x-id")
		_, _ = req.Body.Bytes()
		return http.String(req, fmt.Sprintf("%s mark %d on %s", id, req.Env.Encryption, req.Path))
	}
	r.Get("/", h).Post("/", h)
	r.Get("/{dyn}", h)
	r.Get("/hijack/it", func(req *http.Request) *http.Response {
		mark := req.Env.Encryption
		client, err := req.Hijack()
		if err != nil {
			return http.Error(req, err)
		}
		_ = client.Write([]byte(fmt.Sprintf("hijacked mark %d", mark)))
		return nil
	})
	r.RouteError(func(req *http.Request) *http.Response {
		return http.String(req, fmt.Sprintf("error mark %d", req.Env.Encryption)).Code(400)
	})
	return r
}

// talk is what one client says; it returns the output expected.
type talk struct {
	wire []string
	want []string
	ends bool // the server closes at the end by itself
	raw  bool
	set  string
}

func genTalk(t *rapid.T, e *endpoint, id int) *talk {
	k := &talk{}
	if e.kind == raw {
		msg := rapid.StringMatching(`[a-z]{1,10}`).Draw(t, "message")
		k.wire = []string{msg + "\n"}
		k.want = []string{fmt.Sprintf("raw %d: %s\n", e.mark, msg)}
		k.ends, k.raw = true, true
		return k
	}
	n := rapid.IntRange(1, 5).Draw(t, "requests")
	for i := 0; i < n; i++ {
		rid := fmt.Sprintf("%d-%d", id, i)
		last := i == n-1
		switch c := rapid.IntRange(0, 7).Draw(t, "request"); {
		case c == 0 && last:
			k.wire = append(k.wire, "GET / HTTP/1.1\r\nbad header\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("error mark %d", e.mark))
			k.ends = true
		case c == 1 && last:
			k.wire = append(k.wire, "GET / HTTP/1.1\r\nX-Id: "+rid+"\r\nConnection: close\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("%s mark %d on /", rid, e.mark))
			k.ends = true
		case c == 2 && last:
			k.wire = append(k.wire, "GET /hijack/it HTTP/1.1\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("hijacked mark %d", e.mark))
			k.ends = true
		case c == 3:
			k.wire = append(k.wire, "GET /missing/path HTTP/1.1\r\nX-Id: "+rid+"\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("error mark %d", e.mark))
		case c == 4:
			k.wire = append(k.wire, "POST / HTTP/1.1\r\nX-Id: "+rid+"\r\nContent-Length: 5\r\n\r\nhello")
			k.want = append(k.want, fmt.Sprintf("%s mark %d on /", rid, e.mark))
		case c == 5:
			k.wire = append(k.wire, "GET /x HTTP/1.1\r\nX-Id: "+rid+"\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("%s mark %d on /x", rid, e.mark))
		default:
			k.wire = append(k.wire, "GET / HTTP/1.1\r\nX-Id: "+rid+"\r\n\r\n")
			k.want = append(k.want, fmt.Sprintf("%s mark %d on /", rid, e.mark))
		}
	}
	return k
}

// read reads one answer.
func (k *talk) read(br *bufio.Reader, want string) (string, error) {
	if k.raw {
		return br.ReadString('\n')
	}
	if strings.HasPrefix(want, "hijacked") {
		b, err := io.ReadAll(io.LimitReader(br, int64(len(want))))
		return string(b), err
	}
	length := -1
	set := ""
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return line, err
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			break
		}
		if name, v, ok := strings.Cut(line, ":"); ok && strings.EqualFold(name, "content-length") {
			fmt.Sscan(v, &length)
		} else if ok && strings.EqualFold(name, "x-set") {
			set = strings.TrimSpace(v)
		}
	}
	if set != k.set {
		return "", fmt.Errorf("served with setting %q instead of %q", set, k.set)
	}
	if length < 0 {
		return "", errors.New("no content length")
	}
	body := make([]byte, length)
	_, err := io.ReadFull(br, body)
	return string(body), err
}

func (k *talk) run(e *endpoint, pipelined bool) error {
	conn, err := e.dial()
	if err != nil {
		return fmt.Errorf("connecting to %s: %w", e.addr, err)
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(patience))
	br := bufio.NewReader(conn)
	if pipelined {
		if _, err := conn.Write([]byte(strings.Join(k.wire, ""))); err != nil {
			return err
		}
	}
	for i, want := range k.want {
		if !pipelined {
			if _, err := conn.Write([]byte(k.wire[i])); err != nil {
				return fmt.Errorf("sending request %d: %w", i, err)
			}
		}
		got, err := k.read(br, want)
		if err != nil {
			return fmt.Errorf("answer %d: %w (%q is expected)", i, err, want)
		}
		if got != want {
			return fmt.Errorf("answer %d is %q instead of %q", i, got, want)
		}
	}
	if k.ends {
		if b, err := br.ReadByte(); err == nil {
			return fmt.Errorf("byte %q follows the last answer", b)
		} else if ne, ok := err.(net.Error); ok && ne.Timeout() {
			return errors.New("the connection isn't closed when serving ends")
		}
	}
	return nil
}

func (e *endpoint) attach(a *indigo.App, cfg config.Config) {
	switch e.kind {
	case plain:
		a.Listen(e.addr)
	case custom:
		a.Listen(e.addr, indigo.Listener{Handler: func(conn net.Conn, r router.Router) {
			e.conns.Add(1)
			cfg := cfg
			cfg.Headers.Default = map[string]string{"X-Set": e.setting}
			serve.HTTP1(cfg, conn, e.mark, r)
		}})
	case raw:
		a.Listen(e.addr, indigo.Listener{Handler: func(conn net.Conn, r router.Router) {
			e.conns.Add(1)
			line, _ := bufio.NewReader(conn).ReadString('\n')
			fmt.Fprintf(conn, "raw %d: %s", e.mark, line)
		}})
	case https:
		e.mark = encryption.TLS
		a.HTTPS(e.addr, certFile, keyFile)
	case auto:
		e.mark = encryption.TLS
		a.AutoHTTPS(e.addr)
	case wrapping:
		a.Listen(e.addr, indigo.Listener{Listen: func(network, addr string) (net.Listener, error) {
			e.conns.Add(1)
			l, err := net.Listen(network, addr)
			if err == nil && e.wrapped {
				l = wrapped{l}
			}
			return l, err
		}})
	}
}

func listeners(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	n := rapid.IntRange(1, 5).Draw(t, "listeners")
	eps := []*endpoint{{kind: plain, addr: loopback()}}
	c.Logf("listener 0: plain")
	a := indigo.New(eps[0].addr)
	// settings may be given at any moment before serving
	setting := ""
	tune := func(i int) {
		if rapid.IntRange(0, 2).Draw(t, "tune") != 0 {
			return
		}
		setting = fmt.Sprintf("after-%d", i)
		cfg := config.Config{}
		if rapid.Bool().Draw(t, "complete") {
			cfg = config.Default()
		}
		cfg.Headers.Default = map[string]string{"X-Set": setting}
		a.Tune(cfg)
		c.Logf("Tune(%s)", setting)
	}
	tune(0)
	for i := 1; i < n; i++ {
		e := &endpoint{kind: kind(rapid.IntRange(0, int(nkinds)-1).Draw(t, "kind")), addr: loopback()}
		e.wrapped = e.kind == wrapping && rapid.Bool().Draw(t, "wrapped")
		if e.kind == custom || e.kind == raw {
			e.mark = encryption.Extend + encryption.Token(i)
		}
		if e.kind == custom {
			e.setting = fmt.Sprintf("own-%d", i)
		}
		e.attach(a, cfg)
		eps = append(eps, e)
		c.Logf("listener %d: %s (wrapped: %v), mark %d", i, kindNames[e.kind], e.wrapped, e.mark)
		tune(i)
	}
	for _, e := range eps {
		if e.kind != custom {
			e.setting = setting
		}
	}
	var bound []string
	a.OnBind(func(addr string) { bound = append(bound, addr) })
	started := make(chan struct{})
	a.OnStart(func() { close(started) })
	returned := make(chan error, 1)
	go func() { returned <- a.Serve(newRouter()) }()
	select {
	case <-started:
	case err := <-returned:
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		c.Failf(t, "serving ended at once: %v", err)
	case <-time.After(patience):
		c.Failf(t, "the application doesn't start")
	}

	nclients := rapid.IntRange(1, 6).Draw(t, "clients")
	errs := make([]error, nclients)
	kinds := map[kind]bool{}
	var wg sync.WaitGroup
	key := ""
	for i := 0; i < nclients; i++ {
		k := rapid.IntRange(0, n-1).Draw(t, "to")
		e := eps[k]
		kinds[e.kind] = true
		tk := genTalk(t, e, i)
		tk.set = e.setting
		pipelined := rapid.Bool().Draw(t, "pipelined")
		c.Logf("client %d of listener %d (pipelined: %v): %q", i, k, pipelined, tk.wire)
		key += fmt.Sprint(k, e.kind, tk.wire)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := tk.run(e, pipelined); err != nil {
				errs[i] = fmt.Errorf("client %d of listener %d (%s): %w", i, k, kindNames[e.kind], err)
			}
		}()
	}
	wg.Wait()
	stopped := make(chan struct{})
	go func() { a.Stop(); close(stopped) }()
	for _, err := range errs {
		if err != nil {
			c.Failf(t, "%v", err)
		}
	}
	select {
	case <-returned:
	case <-time.After(patience):
		c.Failf(t, "serving doesn't end")
	}
	var want []string
	for _, e := range eps {
		want = append(want, e.addr)
	}
	sort.Strings(want)
	sort.Strings(bound)
	if fmt.Sprint(bound) != fmt.Sprint(want) {
		c.Failf(t, "bound addresses reported: %v, listened on: %v", bound, want)
	}
	for k := range kinds {
		c.Class(kindNames[k])
	}
	if n > 1 {
		c.NonTrivial(key, n)
	}
}

// fake is a listener of nothing.
type fake struct {
	closed chan struct{}
	once   sync.Once
	addr   string
}

func (f *fake) Accept() (net.Conn, error)   { <-f.closed; return nil, net.ErrClosed }
func (f *fake) Close() error                { f.once.Do(func() { close(f.closed) }); return nil }
func (f *fake) Addr() net.Addr              { return lib.Addr(f.addr) }
func (f *fake) SetDeadline(time.Time) error { return f.Close() }

// bound: the bind callback, with addresses of any form.
func bound(t *rapid.T, c *lib.Case) {
	own := loopback()
	a := indigo.New(own)
	n := rapid.IntRange(0, 6).Draw(t, "listeners")
	bad := -1
	if n > 0 && rapid.Bool().Draw(t, "failing") {
		bad = rapid.IntRange(0, n-1).Draw(t, "failing one")
	}
	errBind := errors.New("can't bind (scripted)")
	var mu sync.Mutex
	listened := []string{own}
	var called []string
	hosts := []string{"", "localhost", "10.0.0.1", "example.com", "0.0.0.0"}
	var asked []string
	for i := 0; i < n; i++ {
		addr := fmt.Sprintf("%s:%d", rapid.SampledFrom(hosts).Draw(t, "host"), rapid.IntRange(1, 65535).Draw(t, "port"))
		c.Logf("Listen(%q), failing: %v", addr, i == bad)
		asked = append(asked, addr)
		a.Listen(addr, indigo.Listener{Listen: func(network, addr string) (net.Listener, error) {
			if i == bad {
				return nil, errBind
			}
			mu.Lock()
			listened = append(listened, addr)
			mu.Unlock()
			return &fake{closed: make(chan struct{}), addr: addr}, nil
		}})
	}
	a.OnBind(func(addr string) {
		mu.Lock()
		called = append(called, addr)
		mu.Unlock()
	})
	started := make(chan struct{})
	a.OnStart(func() { close(started) })
	returned := make(chan error, 1)
	go func() { returned <- a.Serve(inbuilt.New()) }()
	select {
	case <-started:
		go a.Stop()
		select {
		case <-returned:
		case <-time.After(patience):
			c.Failf(t, "serving doesn't end")
		}
	case err := <-returned:
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		if bad < 0 {
			c.Failf(t, "serving ended at once: %v", err)
		}
		c.Class("bind failure")
	case <-time.After(patience):
		c.Failf(t, "the application doesn't start")
	}
	mu.Lock()
	defer mu.Unlock()
	sort.Strings(listened)
	sort.Strings(called)
	if fmt.Sprint(listened) != fmt.Sprint(called) {
		c.Failf(t, "bound addresses reported: %v, listened on: %v", called, listened)
	}
	// each is listened on under its own address
	if bad < 0 {
		if len(listened) != n+1 {
			c.Failf(t, "%d addresses of %d are listened on", len(listened), n+1)
		}
		var want []string
		for _, addr := range append(asked, own) {
			if strings.HasPrefix(addr, ":") {
				addr = "0.0.0.0" + addr
			}
			want = append(want, addr)
		}
		sort.Strings(want)
		if fmt.Sprint(want) != fmt.Sprint(listened) {
			c.Failf(t, "listened on %v instead of %v", listened, want)
		}
	}
	if n > 0 {
		c.NonTrivial(fmt.Sprint(asked), bad)
	}
}
