// C28: protocol upgrade is announced once and applies to that request only.
package c28

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC28(t *testing.T) {
	lib.Run(t, "C28",
		lib.Prop{Name: "connection", Quick: 6000, Fn: connection},
		lib.Prop{Name: "choice", Quick: 4000, Fn: choice},
	)
}

var supported = map[string]string{"http/1.0": "HTTP/1.0", "HTTP/1.0": "HTTP/1.0", "http/1.1": "HTTP/1.1", "HTTP/1.1": "HTTP/1.1"}

var foreign = []string{"websocket", "TLS/1.0", "HTTP/3.0", "http/1.2", "http/1.1x", "xhttp/1.1", "HTTP/1", "1.1", "irc/6.9", "http/2", "http/1.", "http/1.00", "HTTP1.1", "HTTP/11", "HTTP/1.10", "http/1.0.1", "http/1,1", "http//1.1", "ftp/1.1", "http:1.1", ""}

// genUpgrade generates an Upgrade value and the protocol chosen ("" for none).
func genUpgrade(t *rapid.T, h2c bool) (value, chosen string) {
	var toks []string
	n := rapid.IntRange(1, 4).Draw(t, "tokens")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "token kind") {
		case 0, 1:
			tok := rapid.SampledFrom([]string{"http/1.0", "HTTP/1.0", "http/1.1", "HTTP/1.1"}).Draw(t, "token")
			if chosen == "" {
				chosen = supported[tok]
			}
			toks = append(toks, tok)
		case 2:
			if chosen == "" && !h2c {
				// whether it is supported is a matter of opinion
				continue
			}
			tok := rapid.SampledFrom([]string{"h2c", "H2C"}).Draw(t, "h2c")
			if chosen == "" {
				chosen = "HTTP/2"
			}
			toks = append(toks, tok)
		case 3:
			// nearly a supported one
			tok := rapid.SampledFrom([]string{"http/1.0", "HTTP/1.0", "http/1.1", "HTTP/1.1", "h2c"}).Draw(t, "token")
			const chars = "\"';:=/.()<>[]-_*xX019"
			extra := string(chars[rapid.IntRange(0, len(chars)-1).Draw(t, "char")])
			switch rapid.IntRange(0, 4).Draw(t, "near miss") {
			case 0:
				tok = extra + tok + extra
			case 1:
				tok = extra + tok
			case 2:
				tok += extra
			case 3:
				tok += ";q=0." + extra
			case 4:
				tok = tok[:len(tok)-1] + extra
			}
			if _, is := supported[tok]; !is && !strings.EqualFold(tok, "h2c") {
				toks = append(toks, tok)
			}
		default:
			toks = append(toks, rapid.SampledFrom(foreign).Draw(t, "foreign"))
		}
	}
	sep := rapid.SampledFrom([]string{",", ", ", " , ", ",  "}).Draw(t, "separator")
	value = strings.Join(toks, sep)
	if chosen == "" && rapid.IntRange(0, 3).Draw(t, "only h2c") == 0 && !h2c {
		return "h2c", ""
	}
	return value, chosen
}

func choice(t *rapid.T, c *lib.Case) {
	value, chosen := genUpgrade(t, true)
	c.Logf("Upgrade: %q chooses %q", value, chosen)
	got := proto.ChooseUpgrade(value)
	want := map[string]proto.Proto{"": proto.Unknown, "HTTP/1.0": proto.HTTP10, "HTTP/1.1": proto.HTTP11, "HTTP/2": proto.HTTP2}[chosen]
	if got != want {
		c.Failf(t, "upgrade %q: chosen %q instead of %q", value, got.String(), chosen)
	}
	if strings.Contains(value, ",") {
		c.NonTrivial(value)
	}
}

type shape struct {
	method, path, proto, body string
	upgrade, chosen           string
	hasUpgrade                bool
	connection                string
	extra                     string
}

func (s *shape) render(upgrade bool, protocol, connection string) string {
	w := s.method + " " + s.path + " " + protocol + "\r\nHost: example.com\r\n" + s.extra
	if upgrade && s.hasUpgrade {
		w += "Upgrade: " + s.upgrade + "\r\n"
	}
	if connection != "" {
		w += "Connection: " + connection + "\r\n"
	}
	if s.body != "" {
		w += fmt.Sprintf("Content-Length: %d\r\n", len(s.body))
	}
	return w + "\r\n" + s.body
}

func (s *shape) wire() string { return s.render(true, s.proto, s.connection) }

// final is the protocol of the response.
func (s *shape) final() string {
	if s.chosen != "" {
		return s.chosen
	}
	return s.proto
}

func newRouter() lib.Quiet {
	r := inbuilt.New()
	r.Get("/text", func(req *http.Request) *http.Response { return http.String(req, "text") })
	r.Post("/echo", func(req *http.Request) *http.Response {
		b, err := req.Body.String()
		if err != nil {
			return http.Error(req, err)
		}
		return http.String(req, b)
	})
	r.Get("/headers", func(req *http.Request) *http.Response {
		return req.Respond().Code(status.Accepted).Header("X-Custom", "1").Header("Accept-Encodings", "mine").Header("Default", "overridden")
	})
	r.Get("/sized", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(strings.NewReader("sized stream"), len("sized stream"))
	})
	r.Get("/chunked", func(req *http.Request) *http.Response {
		return req.Respond().Attachment(strings.NewReader("stream of unknown size"), 0)
	})
	r.Get("/nil", func(req *http.Request) *http.Response { return nil })
	return lib.Quiet{Router: r.Initialize()}
}

func genShape(t *rapid.T) *shape {
	s := &shape{method: "GET", proto: rapid.SampledFrom([]string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}).Draw(t, "proto")}
	s.path = rapid.SampledFrom([]string{"/text", "/headers", "/sized", "/chunked", "/nil", "/missing", "/echo"}).Draw(t, "path")
	if s.path == "/echo" && rapid.IntRange(0, 5).Draw(t, "post") > 0 {
		s.method = "POST"
		s.body = rapid.StringMatching(`[a-z ]{1,20}`).Draw(t, "body")
	} else if rapid.IntRange(0, 5).Draw(t, "head") == 0 {
		s.method = "HEAD"
	}
	if rapid.IntRange(0, 4).Draw(t, "upgrade") > 0 {
		s.hasUpgrade = true
		s.upgrade, s.chosen = genUpgrade(t, false)
	}
	if s.proto == "HTTP/1.0" {
		s.connection = "keep-alive"
	} else if s.hasUpgrade {
		s.connection = rapid.SampledFrom([]string{"", "Upgrade", "keep-alive"}).Draw(t, "connection of an ignored upgrade")
	}
	if s.chosen != "" {
		s.connection = rapid.SampledFrom([]string{"Upgrade", "upgrade"}).Draw(t, "connection")
	}
	if s.path == "/chunked" && s.final() == "HTTP/1.0" {
		// marks its end by closing
		s.path = "/text"
	}
	if rapid.Bool().Draw(t, "extra") {
		s.extra = "X-Some: thing\r\n"
	}
	return s
}

func serve(cfg config.Config, segs [][]byte) ([]byte, string) {
	conn := lib.NewConn(segs)
	msg := lib.Serve(cfg, conn, encryption.Plain, newRouter())
	return conn.Out, msg
}

func connection(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	if rapid.Bool().Draw(t, "default headers") {
		cfg.Headers.Default = map[string]string{"Default": "value"}
		if rapid.Bool().Draw(t, "clashing") {
			// those of the response 101 take precedence, but only there
			cfg.Headers.Default["Connection"] = "keep-alive"
			cfg.Headers.Default["upgrade"] = "some/1.0"
		}
	}
	nshapes := rapid.IntRange(1, 3).Draw(t, "shapes")
	var shapes []*shape
	for i := 0; i < nshapes; i++ {
		shapes = append(shapes, genShape(t))
	}
	order := rapid.SliceOfN(rapid.IntRange(0, nshapes-1), 1, 8).Draw(t, "order")
	var wire []byte
	upgrades := 0
	for _, k := range order {
		wire = append(wire, shapes[k].wire()...)
		c.Logf("%q (chosen: %q)", shapes[k].wire(), shapes[k].chosen)
		if shapes[k].chosen != "" {
			upgrades++
		}
	}
	out, msg := serve(cfg, lib.Split(wire, lib.GenCuts(t, len(wire))))
	if msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	seen := map[int][]byte{}
	rest := out
	for i, k := range order {
		s := shapes[k]
		start := rest
		if s.chosen != "" {
			r, after, err := lib.ParseResp(rest, true)
			if err != nil {
				c.Failf(t, "request %d: no response 101: %v in %s", i, err, lib.Q(rest))
			}
			if r.Code != 101 {
				c.Failf(t, "request %d: the first response is %d instead of 101", i, r.Code)
			}
			if up, err := r.One("Upgrade"); err != nil || !strings.EqualFold(up, s.chosen) {
				c.Failf(t, "request %d: 101 names the protocol %q instead of %q (%v)", i, up, s.chosen, err)
			}
			if cn, err := r.One("Connection"); err != nil || !strings.EqualFold(cn, "upgrade") {
				c.Failf(t, "request %d: 101 has Connection %q (%v)", i, cn, err)
			}
			rest = after
		}
		r, after, err := lib.ParseResp(rest, s.method == "HEAD")
		if err != nil {
			c.Failf(t, "request %d: no final response: %v in %s", i, err, lib.Q(rest))
		}
		if r.Code < 200 {
			c.Failf(t, "request %d: another interim response %d", i, r.Code)
		}
		if r.Proto != s.final() {
			c.Failf(t, "request %d: the final response is in %q instead of %q", i, r.Proto, s.final())
		}
		// the same request of the chosen protocol without any upgrade
		alone, msg := serve(cfg, [][]byte{[]byte(s.render(false, s.final(), "keep-alive"))})
		if msg != "" {
			c.Failf(t, "panic: %s", msg)
		}
		final := rest[:len(rest)-len(after)]
		if !bytes.Equal(sortDefaults(final), sortDefaults(alone)) {
			c.Failf(t, "request %d: the final response is %s, without the upgrade it is %s", i, lib.Q(final), lib.Q(alone))
		}
		rest = after
		all := start[:len(start)-len(after)]
		if prev, ok := seen[k]; ok && !bytes.Equal(prev, all) {
			c.Failf(t, "request %d: answered by %s, the same request was answered by %s before", i, lib.Q(all), lib.Q(prev))
		}
		seen[k] = append([]byte(nil), all...)
	}
	if len(rest) > 0 {
		c.Failf(t, "superfluous output: %s", lib.Q(rest))
	}
	if upgrades > 0 {
		c.NonTrivial(string(wire))
		if upgrades < len(order) {
			c.Class("mixed")
		}
		if upgrades > 1 {
			c.Class("several upgrades")
		}
	}
}

// sortDefaults makes the order of header lines not matter, as default headers come from a map.
func sortDefaults(resp []byte) []byte {
	head, body, ok := bytes.Cut(resp, []byte("\r\n\r\n"))
	if !ok {
		return resp
	}
	lines := strings.Split(string(head), "\r\n")
	for i := 1; i < len(lines); i++ {
		for j := i; j > 1 && lines[j-1] > lines[j]; j-- {
			lines[j-1], lines[j] = lines[j], lines[j-1]
		}
	}
	return append([]byte(strings.Join(lines, "\r\n")), body...)
}
