// C03: hostile bytes never crash, hang or derail the server.
package c03

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC03(t *testing.T) {
	lib.Run(t, "C03",
		lib.Prop{Name: "anybytes", Quick: 12000, Fn: anyBytes},
		lib.Prop{Name: "malformed", Quick: 6000, Fn: malformed},
		lib.Prop{Name: "floods", Quick: 60, Fn: floods},
		lib.Prop{Name: "promises", Quick: 1500, Fn: promises},
	)
}

// wellFormed checks that everything written is a sequence of complete responses.
func wellFormed(out []byte, views []lib.View) ([]*lib.Resp, error) {
	var heads []bool
	for _, v := range views {
		heads = append(heads, v.Method == "HEAD")
	}
	finals, _, err := lib.ParseAll(out, heads)
	if err != nil && len(finals) == len(views) {
		// an error response to a HEAD request may lack the body
		heads = append(heads, true)
		finals, _, err = lib.ParseAll(out, heads)
	}
	return finals, err
}

func anyBytes(t *rapid.T, c *lib.Case) {
	var data []byte
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 4:
		data = lib.GenOdd(t, 3)
	case 0:
		data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "random")
		if rapid.Bool().Draw(t, "prefixed") {
			data = append([]byte(rapid.SampledFrom([]string{"GET ", "GET /", "GET / HTTP/1.1\r\n", "POST / HTTP/1.1\nContent-Length: ",
				"GET / HTTP/1.1\r\nA: b\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"}).Draw(t, "prefix")), data...)
		}
	case 1:
		n := rapid.IntRange(1, 25).Draw(t, "ntoks")
		for i := 0; i < n; i++ {
			data = append(data, rapid.SampledFrom(hostile).Draw(t, "tok")...)
		}
	default:
		data, _, _ = lib.GenStream(t, lib.GenOpts{UpgradeH1: true}, 3)
		data, _ = lib.Damage(t, data)
	}
	cfg := config.Default()
	if rapid.IntRange(0, 3).Draw(t, "tight") == 0 {
		cfg.URL.BufferSize.Maximal = 30
		cfg.URL.BufferSize.Default = 1
		cfg.Headers.Number.Maximal = 3
		cfg.Headers.KeySpace.Maximal = 40
		cfg.Headers.ValueSpace.Maximal = 40
		cfg.Headers.MaxEncodingTokens = 2
		cfg.Body.MaxSize = 30
	}
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 5, 64, 4096}).Draw(t, "readbuf")
	hows := rapid.SliceOfN(rapid.IntRange(-1, 4), 1, 3).Draw(t, "hows")
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	if rapid.Bool().Draw(t, "reset") {
		conn.End = rapid.SampledFrom([]error{lib.ErrReset, lib.ErrTimeout}).Draw(t, "end")
	}
	useRouter := rapid.IntRange(0, 3).Draw(t, "inbuilt") == 0
	c.Logf("bytes %s\nend %v, hows %v, cfg %+v, inbuilt router %v", lib.Q(data), conn.End, hows, cfg, useRouter)
	c.Breadcrumb()
	var views []lib.View
	if useRouter {
		rec := &lib.Recorder{}
		if p := lib.Serve(cfg, conn, encryption.Plain, watched{fullRouter(), rec}); p != "" {
			c.Failf(t, "serving panicked: %s", p)
		}
		views = rec.Views
	} else {
		got := lib.Observe(cfg, conn, func(i int) int { return hows[i%len(hows)] })
		if got.Panic != "" {
			c.Failf(t, "serving panicked: %s", got.Panic)
		}
		views = got.Views
	}
	finals, err := wellFormed(conn.Out, views)
	if err != nil {
		c.Failf(t, "malformed output: %v\noutput %s", err, lib.Q(conn.Out))
	}
	if len(finals) < len(views) || len(finals) > len(views)+1 {
		c.Failf(t, "%d responses to %d handled requests", len(finals), len(views))
	}
	for i, r := range finals[len(views):] {
		if r.Code < 400 {
			c.Failf(t, "response %d isn't an error (%d), although no handler was called", len(views)+i, r.Code)
		}
	}
	if len(finals) > len(views) {
		c.Class("refused")
	}
	if len(conn.Out) > 0 {
		c.NonTrivial(string(data), hows)
	}
}

// watched notes the methods of the requests passed to another router.
type watched struct {
	router.Router
	rec *lib.Recorder
}

func (w watched) OnRequest(req *http.Request) *http.Response {
	w.rec.Views = append(w.rec.Views, lib.View{Method: req.Method.String()})
	return w.Router.OnRequest(req)
}

func fullRouter() router.Router {
	h := func(req *http.Request) *http.Response {
		_, _ = req.Query.Unwrap()
		_, _ = req.Cookies()
		return http.String(req, "ok "+req.Params.Value("x"))
	}
	r := inbuilt.New()
	r.Get("/", h).Post("/", h).Get("/a/{x}", h).Put("/a/{x}/b", h).Alias("/alias", "/a/1")
	r.Catch("/c", h)
	r.Group("/g").Get("/{y}", h)
	return r.Initialize()
}

var hostile = []string{
	"GET", "POST", "HEAD", "TRACE", " ", " ", "/", "/", "%", "%4", "%41", "%zz", "?", "?a=b", "*", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/1.", "HTTP/",
	"\r\n", "\r\n", "\r\n", "\n", "\n", "\r", "\r\n\r\n", "\n\n", ":", ": ", "A", "Host: a\r\n", "Content-Length", "Content-Length: 3\r\n", "Content-Length: \r\n",
	"Content-Length:\n", "Content-Length: -5\r\n", "Transfer-Encoding", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: ,\r\n", "Connection: close\r\n",
	"Upgrade: http/1.1\r\n", "Upgrade: h2c\r\n", "Trailer: x\r\n", "Cookie: a=b; c\r\n", "0\r\n\r\n", "3\r\nabc\r\n", "ffffffffffffffff\r\n", "GET / HTTP/1.1\r\n\r\n",
	"POST / HTTP/1.1\r\n", "\x00", "\xff\xfe", "\t", "//", "/a/", "/a//b", "/..", "Expect: 100-continue\r\n", "GET  / HTTP/1.1\r\n", "9223372036854775807", "18446744073709551616",
}

type bad struct {
	class string
	codes []int
	make  func(t *rapid.T) string
}

func pick(t *rapid.T, s ...string) string { return rapid.SampledFrom(s).Draw(t, "variant") }

const rest = "\r\nHost: h\r\n\r\n"

// lines makes some proper header lines, sometimes as many as are allowed or very long ones.
func lines(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "lines") {
	case 0, 1:
		return ""
	case 2:
		return "A: b\r\n"
	case 3:
		return strings.Repeat("A: b\r\n", rapid.IntRange(2, 47).Draw(t, "nlines"))
	default:
		return "Long: " + strings.Repeat("v", rapid.IntRange(1, 5000).Draw(t, "nlong")) + "\r\n"
	}
}

var bads = []bad{
	{"unknown method", []int{501}, func(t *rapid.T) string {
		m := pick(t, "get", "Get", "GETT", "GE", "G", "POSTT", "PROPFIND", "OPTION", "CONNECTS", "HEAD\t", "PURGE", "DELET", "TRACEE", "PATCh", "BREW", "GET\x00", "PRI", "SEARCH", "\rGET", "X")
		return m + " / HTTP/1.1" + rest
	}},
	{"empty method", []int{400}, func(t *rapid.T) string { return pick(t, " / HTTP/1.1", "  / HTTP/1.1") + rest }},
	{"unsupported version", []int{505}, func(t *rapid.T) string {
		return "GET / HTTP/" + pick(t, "2.0", "1.2", "0.9", "3.0", "1.9", "9.9", "0.0", "2.1") + rest
	}},
	{"bad protocol", []int{400, 505}, func(t *rapid.T) string {
		return "GET / " + pick(t, "HTTP/1.1x", "http/1.1", "HTTP/11", "HTP/1.1", "HTTP/1", "HTTP/1.", "HTTP/1x1", "HTTP/a.b", "HTTP1.1", "XTTP/1.1", "HTTP/1.1\t", "", "\r", "HTTP/1.10", "HTTPS/1.1", "HTTP/-.1", "HTTP/1,1") + rest
	}},
	{"no protocol", []int{400, 505}, func(t *rapid.T) string { return "GET /" + pick(t, "", "abc", "a?b=c") + rest }},
	{"no path", []int{400}, func(t *rapid.T) string { return "GET " + pick(t, "", "?a=b") + " HTTP/1.1" + rest }},
	{"bad escape", []int{400}, func(t *rapid.T) string {
		esc := pick(t, "%", "%4", "%zz", "%4g", "%g4", "%%41", "%-1", "% 1", "%+4", "%0x", "%1G", "%/a", "%:0", "%@1", "%`a", "%\xc11")
		tail := pick(t, "", "", "/b", "%41")
		if len(esc) < 3 && tail != "" {
			tail = "/zz" // completing the escape isn't possible: / is no digit
		}
		return "GET /" + pick(t, "", "a", "%41") + esc + tail + " HTTP/1.1" + rest
	}},
	{"bad header line", []int{400}, func(t *rapid.T) string {
		line := pick(t, "nocolon", ": noname", " leading: space", "trailing : space", "in side: space", "tab\t: x", "no colon at all", "x", "\tfold: x", "a\x01b: c", "\x7f: d", " ", "  folded continuation", ":")
		before, after := lines(t), pick(t, "", "C: d\r\n")
		return "GET / HTTP/1.1\r\n" + before + line + "\r\n" + after + "\r\n"
	}},
	{"bad length", []int{400}, func(t *rapid.T) string {
		v := pick(t, "abc", "-1", "+5", "5a", "0x10", "1.5", "", " ", "1,2", "5 5", "99999999999999999999", "9223372036854775808", "18446744073709551621", "1e3", "five", "\"5\"", "5;", "--5", "0-5")
		return "POST / HTTP/1.1\r\n" + lines(t) + "Content-Length:" + pick(t, " ", "") + v + rest
	}},
	{"broken line end", []int{400}, func(t *rapid.T) string {
		return pick(t, "GET / HTTP/1.1\r\nA: b\r\n\rX\r\n\r\n", "GET / HTTP/1.1\r\n\rA: b\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 0\rX: y\r\n\r\n")
	}},
}

// malformed puts one malformed request among valid ones.
func malformed(t *rapid.T, c *lib.Case) {
	n := rapid.IntRange(0, 2).Draw(t, "before")
	var data []byte
	var reqs []*lib.Req
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Conn: []string{"keep-alive"}, Protos: []string{"HTTP/1.1"}, MaxHeaders: 3, NoUpgrade: true})
		reqs = append(reqs, r)
		data = append(data, r.Bytes()...)
	}
	b := rapid.SampledFrom(bads).Draw(t, "class")
	text := b.make(t)
	if b.class != "broken line end" && rapid.IntRange(0, 3).Draw(t, "lf") == 0 {
		text = strings.ReplaceAll(text, "\r\n", "\n")
	}
	data = append(data, text...)
	data = append(data, "GET /after HTTP/1.1\r\n\r\n"...)
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	c.Logf("%s: %s\nafter %d valid requests", b.class, lib.Q([]byte(text)), n)
	c.Breadcrumb()
	got := lib.Observe(config.Default(), conn, nil)
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	if len(got.Views) != n {
		extra := ""
		if len(got.Views) > n {
			extra = fmt.Sprint(got.Views[n])
		}
		c.Failf(t, "%d requests were handled instead of %d; the first extra is %s", len(got.Views), n, extra)
	}
	finals, err := wellFormed(got.Out, got.Views)
	if err != nil {
		c.Failf(t, "malformed output: %v\noutput %s", err, lib.Q(got.Out))
	}
	if len(finals) != n+1 {
		c.Failf(t, "%d responses instead of %d: %s", len(finals), n+1, lib.Q(got.Out))
	}
	code := finals[n].Code
	ok := false
	for _, want := range b.codes {
		ok = ok || code == want
	}
	if !ok {
		c.Failf(t, "%s is answered with %d instead of %v", b.class, code, b.codes)
	}
	if len(got.Errors) != 1 {
		c.Failf(t, "errors reported to the router: %q", got.Errors)
	}
	c.Class(b.class)
	c.NonTrivial(string(data), len(conn.OutAtRead))
}

// floods sends much more data than any limit allows, in every part of a request.
func floods(t *rapid.T, c *lib.Case) {
	size := rapid.IntRange(70_000, 300_000).Draw(t, "size")
	unit := rapid.SampledFrom([]string{"a", "%41", " ", ":", "\r", "x: y\r\n", "\x00", "/", "ab:", "Content-Length: 1\r\n", "A:\r\n", "A:\n"}).Draw(t, "unit")
	prefix := rapid.SampledFrom([]string{"", "GET ", "GET /", "GET /?", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nA: ",
		"GET / HTTP/1.1\r\nContent-Length: ", "GET / HTTP/1.1\r\nTransfer-Encoding: ", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n",
		"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5"}).Draw(t, "prefix")
	data := append([]byte(prefix), bytes.Repeat([]byte(unit), size/len(unit))...)
	c.Logf("%q followed by %d times %q", prefix, size/len(unit), unit)
	c.Breadcrumb()
	conn := lib.NewConn([][]byte{data})
	got := lib.Observe(config.Default(), conn, nil)
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	finals, err := wellFormed(got.Out, got.Views)
	if err != nil {
		c.Failf(t, "malformed output: %v", err)
	}
	for _, f := range finals {
		if f.Code < 400 {
			c.Failf(t, "a flood is answered with %d", f.Code)
		}
	}
	if len(finals) > 1 {
		c.Failf(t, "%d responses to a flood", len(finals))
	}
	c.NonTrivial(prefix, unit, size)
}

// promises announces huge bodies, whatever the limit, and sends only a little of them.
func promises(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	if limit := rapid.SampledFrom([]uint{0, 1, 100, 1 << 31, 1 << 40, 1 << 50, math.MaxInt64, math.MaxUint64}).Draw(t, "limit"); limit != 0 {
		cfg.Body.MaxSize = limit
	}
	length := rapid.SampledFrom([]uint64{1, 99, 100, 101, 1 << 20, 1 << 29, 1<<29 + 1, 1 << 31, 1 << 40, 1<<40 + 1, 1 << 50, 1 << 62, math.MaxInt64 - 7, math.MaxInt64 - 10}).Draw(t, "length")
	sent := rapid.IntRange(0, 90).Draw(t, "sent")
	how := rapid.IntRange(-1, 4).Draw(t, "how")
	var data []byte
	chunked := rapid.IntRange(0, 3).Draw(t, "chunked") == 0
	if chunked {
		data = append(data, fmt.Sprintf("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", length, strings.Repeat("x", sent))...)
	} else {
		data = append(data, fmt.Sprintf("POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", length, strings.Repeat("x", sent))...)
	}
	if uint64(sent) >= length {
		return
	}
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	conn.End = rapid.SampledFrom([]error{io.EOF, lib.ErrReset, lib.ErrTimeout}).Draw(t, "end")
	c.Logf("%d bytes of a body of %d (chunked: %v), at most %d, read by means %d", sent, length, chunked, cfg.Body.MaxSize, how)
	c.Breadcrumb()
	got := lib.Observe(cfg, conn, func(int) int { return how })
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	finals, err := wellFormed(got.Out, got.Views)
	if err != nil {
		c.Failf(t, "malformed output: %v", err)
	}
	if len(got.Views) > 1 || len(finals) > 1 {
		c.Failf(t, "%d requests were handled and %d answered", len(got.Views), len(finals))
	}
	if len(got.Views) == 1 && how >= 0 && got.Views[0].BodyErr == "" {
		c.Failf(t, "the incomplete body was read without an error: %s", got.Views[0])
	}
	c.NonTrivial(string(data), how, cfg.Body.MaxSize, conn.End)
}
