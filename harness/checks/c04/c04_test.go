// C04: configured limits are enforced for every request of a connection.
package c04

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC04(t *testing.T) {
	lib.Run(t, "C04",
		lib.Prop{Name: "heads", Quick: 8000, Fn: heads},
		lib.Prop{Name: "bodies", Quick: 6000, Fn: bodies},
		lib.Prop{Name: "promises", Quick: 600, Fn: promises},
		lib.Prop{Name: "defaults", Quick: 250, Fn: defaults},
		lib.Prop{Name: "unfinished", Quick: 400, Fn: unfinished},
	)
}

type verdict int

const (
	mustAccept verdict = iota
	mustRefuse
	either
)

func (v verdict) String() string {
	return [...]string{"must be accepted", "must be refused", "unspecified"}[v]
}

// judge says what the limits demand for the head of a request.
func judge(cfg config.Config, r *lib.Req) (v verdict, codes map[int]bool, why string) {
	codes = map[int]bool{}
	target := len(r.RawPath)
	if r.HasQuery {
		target += 1 + len(r.Query)
	}
	v = mustAccept
	worse := func(n verdict, c int, w string) {
		if v != mustRefuse {
			codes[c] = true
		}
		if n == mustRefuse && v != mustRefuse || n == either && v == mustAccept {
			v, why = n, w
		}
	}
	// the URI buffer holds the target, a space, the protocol and maybe a CR
	switch line := target + 1 + len(r.Proto); {
	case line > cfg.URL.BufferSize.Maximal:
		worse(mustRefuse, 414, "URI")
	case line+1 > cfg.URL.BufferSize.Maximal:
		worse(either, 414, "URI")
	}
	keys, vals, slack, toks := 0, 0, 0, map[string]int{}
	for i, h := range r.Headers {
		if i+1 > cfg.Headers.Number.Maximal {
			worse(mustRefuse, 431, "number of headers")
		}
		if len(h.Name) > cfg.Headers.MaxKeyLength {
			worse(mustRefuse, 431, "name length")
		}
		keys += len(h.Name)
		if keys > cfg.Headers.KeySpace.Maximal {
			worse(mustRefuse, 431, "name space")
		}
		if strings.EqualFold(h.Name, "content-length") {
			continue
		}
		s := len(h.Pre) + len(r.EOL) - 1
		if len(h.Value) > cfg.Headers.MaxValueLength {
			worse(mustRefuse, 431, "value length")
		} else if len(h.Value)+s > cfg.Headers.MaxValueLength {
			worse(either, 431, "value length")
		}
		vals += len(h.Value)
		slack += s
		if vals > cfg.Headers.ValueSpace.Maximal {
			worse(mustRefuse, 431, "value space")
		} else if vals+slack > cfg.Headers.ValueSpace.Maximal {
			worse(either, 431, "value space")
		}
		if n := strings.ToLower(h.Name); n == "content-encoding" || n == "transfer-encoding" {
			for _, tok := range strings.Split(h.Value, ",") {
				if strings.TrimSpace(tok) != "" {
					toks[n]++
				}
			}
			if toks[n] > cfg.Headers.MaxEncodingTokens {
				worse(mustRefuse, 431, "coding tokens")
			}
		}
	}
	return v, codes, why
}

func tightCfg(t *rapid.T) config.Config {
	cfg := config.Default()
	on := rapid.IntRange(0, 5).Draw(t, "which")
	all := rapid.IntRange(0, 4).Draw(t, "all") == 0
	if all || on == 0 {
		cfg.URL.BufferSize.Maximal = rapid.IntRange(16, 70).Draw(t, "urlmax")
		cfg.URL.BufferSize.Default = rapid.IntRange(1, cfg.URL.BufferSize.Maximal).Draw(t, "urldef")
	}
	if all || on == 1 {
		cfg.Headers.Number.Maximal = rapid.IntRange(1, 6).Draw(t, "hnum")
		cfg.Headers.Number.Default = 1
		if !all && rapid.IntRange(0, 3).Draw(t, "numerous") == 0 {
			cfg.Headers.Number.Maximal = rapid.SampledFrom([]int{64, 100, 127, 128, 200, 255, 256, 300}).Draw(t, "hnum")
			cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = 65536, 65536
		}
	}
	if all || on == 2 {
		cfg.Headers.MaxKeyLength = rapid.IntRange(4, 20).Draw(t, "keylen")
	}
	if all || on == 3 {
		cfg.Headers.MaxValueLength = rapid.IntRange(4, 30).Draw(t, "vallen")
	}
	if all || on == 4 {
		cfg.Headers.KeySpace.Maximal = rapid.IntRange(10, 60).Draw(t, "keyspace")
		cfg.Headers.KeySpace.Default = rapid.IntRange(1, 10).Draw(t, "keydef")
		cfg.Headers.ValueSpace.Maximal = rapid.IntRange(10, 60).Draw(t, "valspace")
		cfg.Headers.ValueSpace.Default = rapid.IntRange(1, 10).Draw(t, "valdef")
	}
	if all || on == 5 {
		cfg.Headers.MaxEncodingTokens = rapid.IntRange(1, 4).Draw(t, "toks")
	}
	return cfg
}

// stretch moves one dimension of the request to the border of its limit.
func stretch(t *rapid.T, cfg config.Config, r *lib.Req) {
	delta := rapid.IntRange(-3, 3).Draw(t, "delta")
	pad := func(n int) string { return strings.Repeat("z", max(0, n)) }
	switch rapid.IntRange(0, 7).Draw(t, "stretch") {
	case 0:
		have := len(r.RawPath) + 1 + len(r.Proto)
		if r.HasQuery {
			have += 1 + len(r.Query)
		}
		s := pad(cfg.URL.BufferSize.Maximal - have + delta)
		if r.HasQuery && rapid.Bool().Draw(t, "inquery") {
			r.Query += s
		} else {
			r.RawPath += s
			r.Path += s
		}
	case 1:
		want := cfg.Headers.Number.Maximal + delta
		for i := 0; len(r.Headers) < want && i < 400; i++ {
			r.Headers = append(r.Headers, lib.Hdr{Name: fmt.Sprintf("h%d", i), Pre: " ", Value: "v"})
		}
	case 2:
		if n := cfg.Headers.MaxKeyLength + delta; n > 0 {
			r.Headers = append(r.Headers, lib.Hdr{Name: pad(n), Pre: " ", Value: "v"})
		}
	case 3:
		r.Headers = append(r.Headers, lib.Hdr{Name: "v", Pre: " ", Value: pad(cfg.Headers.MaxValueLength - 2 + delta)})
	case 4:
		have := 0
		for _, h := range r.Headers {
			have += len(h.Name)
		}
		left := cfg.Headers.KeySpace.Maximal - have + delta
		for i := 0; left > 0 && i < 60; i++ {
			n := min(left, cfg.Headers.MaxKeyLength)
			r.Headers = append(r.Headers, lib.Hdr{Name: pad(n), Pre: "", Value: ""})
			left -= n
		}
	case 5:
		have := 0
		for _, h := range r.Headers {
			have += len(h.Value)
		}
		left := cfg.Headers.ValueSpace.Maximal - have + delta
		for i := 0; left > 0 && i < 60; i++ {
			n := min(left, cfg.Headers.MaxValueLength-1)
			if n <= 0 {
				break
			}
			r.Headers = append(r.Headers, lib.Hdr{Name: "n", Pre: "", Value: pad(n)})
			left -= n
		}
	case 6:
		n := cfg.Headers.MaxEncodingTokens + delta
		var toks []string
		for i := 0; i < n; i++ {
			toks = append(toks, rapid.SampledFrom([]string{"t", "t", "identity", "gzip", "Identity", "br", "x-unknown", "deflate", "compress", "*"}).Draw(t, "tok"))
		}
		for k := range r.Headers {
			if strings.EqualFold(r.Headers[k].Name, "content-encoding") {
				r.Headers[k].Name = "x-was-ce"
			}
		}
		r.Headers = append(r.Headers, lib.Hdr{Name: "Content-Encoding", Pre: " ", Value: strings.Join(toks, ", ")})
	}
}

func heads(t *rapid.T, c *lib.Case) {
	cfg := tightCfg(t)
	n := rapid.IntRange(1, 4).Draw(t, "nreqs")
	var data []byte
	var reqs []*lib.Req
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Conn: []string{"keep-alive"}, Protos: []string{"HTTP/1.1"}, NoUpgrade: true, MaxHeaders: 4})
		if rapid.IntRange(0, 3).Draw(t, "border") > 0 {
			stretch(t, cfg, r)
		}
		reqs = append(reqs, r)
		data = append(data, r.Bytes()...)
		c.Logf("request %d %s", i, lib.Q(r.Bytes()))
	}
	c.Logf("url %+v headers %+v", cfg.URL, cfg.Headers)
	check(t, c, cfg, reqs, data)
}

// check serves the requests and compares what was accepted with what the limits demand.
func check(t *rapid.T, c *lib.Case, cfg config.Config, reqs []*lib.Req, data []byte) {
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, min(len(data), 500))))
	got := lib.Observe(cfg, conn, nil)
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	served := len(got.Views)
	for i, r := range reqs {
		v, codes, why := judge(cfg, r)
		if i < served {
			if v == mustRefuse {
				c.Failf(t, "request %d exceeds the %s limit, but reached the handler", i, why)
			}
			if d := r.View().Diff(got.Views[i]); d != "" {
				c.Failf(t, "request %d: sent versus observed: %s", i, d)
			}
			continue
		}
		if v == mustAccept {
			c.Failf(t, "request %d is within the limits, but wasn't served; errors %q, output %s", i, got.Errors, lib.Q(got.Out))
		}
		hs := make([]bool, served+1)
		for j := range got.Views {
			hs[j] = got.Views[j].Method == "HEAD"
		}
		finals, _, err := lib.ParseAll(got.Out, hs)
		if err != nil || len(finals) != served+1 {
			c.Failf(t, "%d responses after %d served and one refused request (%v): %s", len(finals), served, err, lib.Q(got.Out))
		}
		if !codes[finals[served].Code] {
			c.Failf(t, "request %d exceeds the %s limit and is answered with %d instead of %v", i, why, finals[served].Code, codes)
		}
		c.Class("refused: " + why)
		c.NonTrivial(string(data))
		return
	}
	if served != len(reqs) {
		c.Failf(t, "%d requests were served instead of %d", served, len(reqs))
	}
	c.NonTrivial(string(data))
}

// defaults goes to the borders of the default configuration.
func defaults(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	r := lib.GenReq(t, lib.GenOpts{MaxHeaders: 2, NoUpgrade: true, Protos: []string{"HTTP/1.1"}})
	stretch(t, cfg, r)
	v, _, why := judge(cfg, r)
	c.Logf("request of %d bytes, %d headers: %s %s", len(r.Bytes()), len(r.Headers), v, why)
	check(t, c, cfg, []*lib.Req{r}, r.Bytes())
}

// unfinished never ends the part exceeding the limit: the server must refuse without waiting for more.
func unfinished(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.URL.BufferSize.Maximal = rapid.IntRange(20, 5000).Draw(t, "urlmax")
	cfg.URL.BufferSize.Default = 10
	cfg.Headers.MaxKeyLength = rapid.IntRange(5, 200).Draw(t, "keylen")
	cfg.Headers.MaxValueLength = rapid.IntRange(5, 3000).Draw(t, "vallen")
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	var data string
	var codes []int
	switch kind {
	case 0:
		data, codes = strings.Repeat("A", cfg.URL.BufferSize.Maximal+2), []int{400, 414, 501}
	case 1:
		data, codes = "GET /"+strings.Repeat("a", cfg.URL.BufferSize.Maximal+2), []int{414}
	case 2:
		data, codes = "GET / HTTP/1.1\r\n"+strings.Repeat("k", cfg.Headers.MaxKeyLength+2), []int{431}
	default:
		data, codes = "GET / HTTP/1.1\r\nA: "+strings.Repeat("v", cfg.Headers.MaxValueLength+3), []int{431}
	}
	c.Logf("unfinished part %d of %d bytes", kind, len(data))
	conn := lib.NewConn(lib.Split([]byte(data), lib.GenCuts(t, len(data))))
	got := lib.Observe(cfg, conn, nil)
	if got.Panic != "" || len(got.Views) > 0 {
		c.Failf(t, "panic %q, %d requests handled", got.Panic, len(got.Views))
	}
	finals, _, err := lib.ParseAll(got.Out, nil)
	if err != nil || len(finals) != 1 {
		c.Failf(t, "an endless request part wasn't refused: %v %s", err, lib.Q(got.Out))
	}
	ok := false
	for _, code := range codes {
		ok = ok || code == finals[0].Code
	}
	if !ok {
		c.Failf(t, "answered with %d instead of %v", finals[0].Code, codes)
	}
	if conn.ReadsAtEnd > 0 {
		c.Failf(t, "the server waited for more input")
	}
	c.NonTrivial(kind, len(data))
}

// bodies checks the body and chunk size limits for every reading method.
func bodies(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.Body.MaxSize = uint(rapid.IntRange(0, 60).Draw(t, "maxsize"))
	if rapid.Bool().Draw(t, "limitchunk") {
		cfg.Body.MaxChunkSize = int64(rapid.IntRange(1, 30).Draw(t, "maxchunk"))
	}
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 7, 64, 4096}).Draw(t, "readbuf")
	n := rapid.IntRange(1, 3).Draw(t, "nreqs")
	var data []byte
	var reqs []*lib.Req
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Conn: []string{"keep-alive"}, Protos: []string{"HTTP/1.1"}, NoUpgrade: true, MaxHeaders: 2, MaxBody: 80})
		reqs = append(reqs, r)
		data = append(data, r.Bytes()...)
	}
	how := rapid.IntRange(-1, 4).Draw(t, "how")
	c.Logf("limits %+v, read by way %d: %s", cfg.Body, how, lib.Q(data))
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	got := &received{how: how}
	if p := lib.Serve(cfg, conn, encryption.Plain, got); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	var hs []bool
	for _, r := range reqs {
		hs = append(hs, r.Method == "HEAD")
	}
	finals, _, err := lib.ParseAll(conn.Out, hs)
	if err != nil {
		c.Failf(t, "malformed output: %v", err)
	}
	for i, r := range reqs {
		if i >= len(got.bodies) {
			c.Failf(t, "request %d wasn't passed to the handler", i)
		}
		tooBig := uint(len(r.Body)) > cfg.Body.MaxSize
		badChunk := false
		for _, s := range r.Chunks {
			badChunk = badChunk || int64(s) > cfg.Body.MaxChunkSize
		}
		body, err := got.bodies[i], got.errs[i]
		if uint(len(body)) > cfg.Body.MaxSize {
			c.Failf(t, "the handler received %d bytes, more than allowed", len(body))
		}
		if !strings.HasPrefix(string(r.Body), body) {
			c.Failf(t, "request %d: the handler received %q of %q", i, body, r.Body)
		}
		if !tooBig && !badChunk {
			if how >= 0 && (err != nil || body != string(r.Body)) {
				c.Failf(t, "request %d is within the limits, but the handler got %q, %v instead of %q", i, body, err, r.Body)
			}
			if i >= len(finals) || finals[i].Code != 200 {
				c.Failf(t, "request %d is within the limits, but wasn't answered with 200", i)
			}
			continue
		}
		if how >= 0 {
			if err == nil {
				c.Failf(t, "request %d exceeds the body limits, but reading it gave %q without an error", i, body)
			}
			if i >= len(finals) || finals[i].Code < 400 {
				c.Failf(t, "request %d exceeds the body limits, but isn't answered with an error", i)
			}
			if tooBig && !badChunk && finals[i].Code != 413 {
				c.Failf(t, "request %d exceeds the body size and is answered with %d", i, finals[i].Code)
			}
		}
		if len(got.bodies) > i+1 {
			c.Failf(t, "a request was served after a body exceeding the limits")
		}
		c.Class("refused body")
		c.NonTrivial(string(data), how, cfg.Body)
		return
	}
	c.NonTrivial(string(data), how, cfg.Body)
}

// received reads bodies and keeps what was got before an error as well.
type received struct {
	how    int
	bodies []string
	errs   []error
}

func (r *received) OnRequest(req *http.Request) *http.Response {
	var body []byte
	var err error
	if r.how >= 0 {
		body, err = lib.ReadBody(req, r.how)
	}
	r.bodies = append(r.bodies, string(body))
	r.errs = append(r.errs, err)
	return http.Error(req, err)
}

func (r *received) OnError(req *http.Request, err error) *http.Response { return http.Error(req, err) }

// promises: lengths far beyond the limit are refused, whatever number of bits they have, and however few bytes follow.
func promises(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.Body.MaxSize = uint(rapid.SampledFrom([]int{3, 100, 1 << 16, 1 << 20, 512 << 20}).Draw(t, "maxsize"))
	// the number, whose low bits look harmless
	length := uint64(1)<<rapid.IntRange(29, 62).Draw(t, "bit") + rapid.Uint64Range(0, 200).Draw(t, "low")
	if rapid.IntRange(0, 3).Draw(t, "any") == 0 {
		length = rapid.Uint64Range(uint64(cfg.Body.MaxSize)+1, 999999999999999999).Draw(t, "length")
	}
	if length <= uint64(cfg.Body.MaxSize) {
		t.Skip("within the limit")
	}
	how := rapid.IntRange(-1, 4).Draw(t, "how")
	body := strings.Repeat("b", rapid.IntRange(0, 300).Draw(t, "sent"))
	data := fmt.Sprintf("POST /a HTTP/1.1\r\nContent-Length: 3\r\n\r\nabcPOST /b HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", length, body)
	c.Logf("limit %d, length %d, sent %d, read by way %d", cfg.Body.MaxSize, length, len(body), how)
	got := &received{how: how}
	conn := lib.NewConn(lib.Split([]byte(data), lib.GenCuts(t, len(data))))
	if p := lib.Serve(cfg, conn, encryption.Plain, got); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	finals, _, err := lib.ParseAll(conn.Out, nil)
	if err != nil {
		c.Failf(t, "malformed output: %v", err)
	}
	if len(finals) < 2 || len(finals) > 2 || len(got.bodies) > 2 {
		c.Failf(t, "%d requests handled, %d responses", len(got.bodies), len(finals))
	}
	if finals[0].Code != 200 || how >= 0 && got.bodies[0] != "abc" {
		c.Failf(t, "the first request is within the limits, but answered with %d", finals[0].Code)
	}
	if len(got.bodies) == 2 && got.bodies[1] != "" {
		c.Failf(t, "the handler received %d bytes of a body exceeding the limit", len(got.bodies[1]))
	}
	// lengths close to what can be represented may be refused as malformed
	if code := finals[1].Code; how >= 0 && code != 413 && !(length > 1<<59 && code == 400) {
		c.Failf(t, "the request is answered with %d, and the body with %v", code, got.errs)
	}
	c.NonTrivial(data, how)
}
