// C22: partial configuration is completed with defaults, never altered.
package c22

import (
	"bytes"
	"fmt"
	"net"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC22(t *testing.T) {
	lib.RunMore(t, "C22", enumerate,
		lib.Prop{Name: "subsets", Quick: 5000, Fn: subsets},
		lib.Prop{Name: "tuned", Quick: 1500, Fn: tuned},
	)
}

type leaf struct {
	name string
	path []int
}

// leaves lists all the settings of the structure.
func leaves() (out []leaf) {
	var walk func(t reflect.Type, name string, path []int)
	walk = func(t reflect.Type, name string, path []int) {
		if t.Kind() != reflect.Struct {
			out = append(out, leaf{name, append([]int(nil), path...)})
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			walk(f.Type, name+"."+f.Name, append(path[:len(path):len(path)], i))
		}
	}
	walk(reflect.TypeOf(config.Config{}), "", nil)
	return out
}

func set(v reflect.Value, n int64, m map[string]string) {
	switch {
	case v.CanInt():
		v.SetInt(n)
	case v.CanUint():
		v.SetUint(uint64(max(n, -n)))
	case v.CanFloat():
		v.SetFloat(float64(n))
	case v.Kind() == reflect.Map:
		v.Set(reflect.ValueOf(m))
	case v.Kind() == reflect.Bool:
		v.SetBool(true)
	case v.Kind() == reflect.String:
		v.SetString(fmt.Sprint(n))
	}
}

func snapshot(c config.Config) string {
	v := reflect.ValueOf(c)
	s := ""
	for _, l := range leaves() {
		s += fmt.Sprintf("%s=%v\n", l.name, v.FieldByIndex(l.path).Interface())
	}
	return s
}

var defaultsBefore = snapshot(config.Default())

func judge(src config.Config) error {
	before := snapshot(src)
	got := config.Fill(src)
	if after := snapshot(src); after != before {
		return fmt.Errorf("the given configuration is changed: %s\nto %s", before, after)
	}
	sv, gv, dv := reflect.ValueOf(src), reflect.ValueOf(got), reflect.ValueOf(config.Default())
	for _, l := range leaves() {
		want, from := sv.FieldByIndex(l.path), "given"
		if want.IsZero() {
			want, from = dv.FieldByIndex(l.path), "default"
		}
		if g := gv.FieldByIndex(l.path); !reflect.DeepEqual(g.Interface(), want.Interface()) {
			return fmt.Errorf("%s is %v instead of the %s %v", l.name, g, from, want)
		}
	}
	if now := snapshot(config.Default()); now != defaultsBefore {
		return fmt.Errorf("the defaults are changed: %s\nto %s", defaultsBefore, now)
	}
	return nil
}

func genMap(t *rapid.T) map[string]string {
	return rapid.MapOfN(rapid.StringMatching(`[A-Z][a-z]{1,5}`), rapid.StringMatching(`[a-z]{0,5}`), 0, 3).Draw(t, "map")
}

func subsets(t *rapid.T, c *lib.Case) {
	ls := leaves()
	var src config.Config
	v := reflect.ValueOf(&src).Elem()
	density := rapid.IntRange(1, 9).Draw(t, "density")
	n := 0
	for _, l := range ls {
		if rapid.IntRange(0, 9).Draw(t, l.name) >= density {
			continue
		}
		n++
		set(v.FieldByIndex(l.path), rapid.SampledFrom([]int64{1, 2, 7, 100, 4096, 65535, 1 << 30, -1, -1000}).Draw(t, "value"), genMap(t))
	}
	c.Logf("%s", snapshot(src))
	if n > 0 && n < len(ls) {
		c.NonTrivial(snapshot(src))
	}
	if err := judge(src); err != nil {
		c.Failf(t, "%v", err)
	}
	// filling is idempotent
	filled := config.Fill(src)
	if a, b := snapshot(filled), snapshot(config.Fill(filled)); a != b {
		c.Failf(t, "filling again changes the configuration: %s\nto %s", a, b)
	}
}

func enumerate(t *testing.T) {
	lib.Enumerate(t, "single settings", func(check func(c *lib.Case, f func() error)) {
		for _, invert := range []bool{false, true} {
			for i := range leaves() {
				for _, value := range []int64{1, 3, 5000, 1 << 30, -1} {
					c := &lib.Case{}
					c.Logf("only %s (inverted: %v) set to %d", leaves()[i].name, invert, value)
					check(c, func() error {
						c.NonTrivial(i, value, invert)
						var src config.Config
						v := reflect.ValueOf(&src).Elem()
						for k, l := range leaves() {
							if (k == i) != invert {
								set(v.FieldByIndex(l.path), value, map[string]string{"Own": "header"})
							}
						}
						return judge(src)
					})
				}
			}
		}
		c := &lib.Case{}
		c.Logf("nothing set")
		check(c, func() error { return judge(config.Config{}) })
		lib.SetExhaustive()
	})
}

// socket notes how it's used.
type socket struct {
	*lib.Conn
	mu        sync.Mutex
	asked     map[int]bool
	timeouts  []time.Duration
	closeOnce sync.Once
	closed    chan struct{}
}

func (s *socket) Read(p []byte) (int, error) {
	s.mu.Lock()
	s.asked[len(p)] = true
	s.mu.Unlock()
	return s.Conn.Read(p)
}

func (s *socket) SetReadDeadline(d time.Time) error {
	s.mu.Lock()
	s.timeouts = append(s.timeouts, time.Until(d))
	s.mu.Unlock()
	return nil
}

func (s *socket) SetDeadline(d time.Time) error { return s.SetReadDeadline(d) }

func (s *socket) Close() error {
	s.closeOnce.Do(func() { close(s.closed) })
	return nil
}

// listener hands out prepared sockets.
type listener struct {
	socks chan *socket
	once  sync.Once
	done  chan struct{}
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case s := <-l.socks:
		return s, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return lib.Addr("192.0.2.2:80") }

// genTight sets some of the settings to values which can be noticed.
func genTight(t *rapid.T) (cfg config.Config) {
	on := func(name string) bool { return rapid.IntRange(0, 3).Draw(t, name) == 0 }
	if on("url") {
		cfg.URL.BufferSize.Maximal = rapid.IntRange(16, 70).Draw(t, "urlmax")
		cfg.URL.BufferSize.Default = rapid.IntRange(1, cfg.URL.BufferSize.Maximal).Draw(t, "urldef")
	}
	if on("number") {
		cfg.Headers.Number.Maximal = rapid.IntRange(1, 6).Draw(t, "hnum")
	}
	if on("name") {
		cfg.Headers.MaxKeyLength = rapid.IntRange(4, 20).Draw(t, "keylen")
	}
	if on("value") {
		cfg.Headers.MaxValueLength = rapid.IntRange(4, 30).Draw(t, "vallen")
	}
	if on("keyspace") {
		cfg.Headers.KeySpace.Maximal = rapid.IntRange(10, 60).Draw(t, "keyspace")
		cfg.Headers.KeySpace.Default = rapid.IntRange(1, 10).Draw(t, "keydef")
	}
	if on("valspace") {
		cfg.Headers.ValueSpace.Maximal = rapid.IntRange(10, 60).Draw(t, "valspace")
		cfg.Headers.ValueSpace.Default = rapid.IntRange(1, 10).Draw(t, "valdef")
	}
	if on("tokens") {
		cfg.Headers.MaxEncodingTokens = rapid.IntRange(1, 4).Draw(t, "toks")
	}
	if on("body") {
		cfg.Body.MaxSize = uint(rapid.SampledFrom([]int{1, 5, 30, 1000}).Draw(t, "maxsize"))
	}
	if on("headers") {
		cfg.Headers.Default = rapid.SampledFrom([]map[string]string{{"Server": "mine"}, {"Accept-Encodings": "gzip"}, {}}).Draw(t, "default headers")
	}
	if on("response") {
		cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{32, 33, 64, 5000}).Draw(t, "respbuf")
	}
	if on("timeout") {
		cfg.TCP.ReadTimeout = time.Duration(rapid.SampledFrom([]int{1000, 3600, 86400 * 30}).Draw(t, "timeout")) * time.Second
	}
	if on("readbuf") {
		cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 2, 7, 63, 64, 100, 4096, 10000, 1 << 20}).Draw(t, "readbufsize")
	}
	return cfg
}

// complete is what the documentation says about zero settings.
func complete(src config.Config) config.Config {
	sv, dv := reflect.ValueOf(&src).Elem(), reflect.ValueOf(config.Default())
	for _, l := range leaves() {
		if f := sv.FieldByIndex(l.path); f.IsZero() {
			f.Set(dv.FieldByIndex(l.path))
		}
	}
	return src
}

func newSocket(data []byte, cuts []int) *socket {
	return &socket{Conn: lib.NewConn(lib.Split(data, cuts)), asked: map[int]bool{}, closed: make(chan struct{})}
}

// tuned: the settings given to an application are those its connections are served with.
func tuned(t *rapid.T, c *lib.Case) {
	a := indigo.New("127.0.0.1:0")
	want := config.Default()
	listen := &listener{socks: make(chan *socket), done: make(chan struct{})}
	attach := func() {
		a.Listen("fake:1", indigo.Listener{Listen: func(string, string) (net.Listener, error) { return listen, nil }})
	}
	first := rapid.Bool().Draw(t, "listen first")
	if first {
		attach()
	}
	for i := rapid.IntRange(0, 2).Draw(t, "tunes"); i > 0; i-- {
		src := genTight(t)
		c.Logf("Tune(%+v)", src)
		want = complete(src)
		a.Tune(src)
	}
	if !first {
		attach()
	}
	handler := func(req *http.Request) *http.Response {
		body, err := req.Body.Bytes()
		return http.String(req, fmt.Sprintf("%s %d headers, body %q, %v", req.Path, req.Headers.Len(), body, err))
	}
	onError := func(req *http.Request) *http.Response { return http.Error(req, req.Env.Error) }
	n := rapid.IntRange(1, 3).Draw(t, "connections")
	var got, ref []*socket
	for i := 0; i < n; i++ {
		data, _, _ := lib.GenStream(t, lib.GenOpts{UpgradeH1: true}, 3)
		cuts := lib.GenCuts(t, len(data))
		c.Logf("connection %d: %s cut at %v", i, lib.Q(data), cuts)
		got, ref = append(got, newSocket(data, cuts)), append(ref, newSocket(data, cuts))
		c.NonTrivial(string(data), fmt.Sprintf("%+v", want))
	}
	c.Breadcrumb()
	started, returned := make(chan struct{}), make(chan error, 1)
	a.OnStart(func() { close(started) })
	go func() { returned <- a.Serve(simple.New(handler, onError)) }()
	select {
	case <-started:
	case err := <-returned:
		c.Failf(t, "serving ended at once: %v", err)
	}
	for _, s := range got {
		listen.socks <- s
	}
	for i, s := range got {
		select {
		case <-s.closed:
		case <-time.After(30 * time.Second):
			c.Failf(t, "connection %d isn't closed", i)
		}
	}
	a.Stop()
	if err := <-returned; err != status.ErrShutdown {
		c.Failf(t, "serving returned %v", err)
	}
	rt := simple.New(handler, onError).Initialize()
	for i, s := range got {
		if p := lib.Serve(want, ref[i], encryption.Plain, rt); p != "" {
			c.Failf(t, "connection %d: panic: %s", i, p)
		}
		if !bytes.Equal(s.Out, ref[i].Out) {
			c.Failf(t, "connection %d is answered\n%s\ninstead of\n%s", i, lib.Q(s.Out), lib.Q(ref[i].Out))
		}
		if len(s.asked) != 1 || !s.asked[want.TCP.ReadBufferSize] {
			c.Failf(t, "connection %d is read by %v bytes instead of %d", i, s.asked, want.TCP.ReadBufferSize)
		}
		for _, d := range s.timeouts {
			if d > want.TCP.ReadTimeout || d < want.TCP.ReadTimeout-30*time.Second {
				c.Failf(t, "connection %d waits for %s instead of %s", i, d, want.TCP.ReadTimeout)
			}
		}
	}
}
