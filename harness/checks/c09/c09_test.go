// C09: streamed responses deliver the stream byte for byte.
package c09

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC09(t *testing.T) {
	log.SetOutput(io.Discard)
	lib.Run(t, "C09",
		lib.Prop{Name: "streams", Quick: 10000, Fn: streams},
		lib.Prop{Name: "files", Quick: 700, Fn: files},
	)
}

// step is one answer of the scripted reader.
type step struct {
	n   int
	err error
}

var errBroken = errors.New("broken stream (scripted)")

// script is a reader returning what it's told to.
type script struct {
	data    []byte
	steps   []step
	at      int
	closed  int
	reads   int
	ended   bool
	late    int // reads after the end
	afterCl int // reads after closing
}

func (s *script) Read(p []byte) (n int, err error) {
	s.reads++
	if s.closed > 0 {
		s.afterCl++
	}
	if s.reads > 100_000 {
		panic("verif: the stream is read endlessly")
	}
	// the whole buffer may be used as a scratch space
	for i := range p {
		p[i] = '#'
	}
	if s.at >= len(s.steps) {
		s.ended = true
		return 0, io.EOF
	}
	st := s.steps[s.at]
	n = copy(p, s.data[:st.n])
	s.data = s.data[n:]
	if n < st.n {
		s.steps[s.at].n -= n
		return n, nil
	}
	s.at++
	if st.err != nil {
		s.at = len(s.steps)
		s.ended = true
	}
	return n, st.err
}

type closer struct{ *script }

func (c closer) Close() error { c.closed++; return nil }

type plan struct {
	method, proto  string // the protocol of the response
	asked, upgrade string // the protocol of the request, and what it asks to upgrade to
	total          string
	steps          []step
	fails          bool
	size           int
	closes         bool
	code           int
	headers        bool
	cookies        bool
	withBody       bool
}

func genPlan(t *rapid.T, big bool) plan {
	p := plan{
		method:   rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "HEAD", "HEAD", "OPTIONS", "PUT", "DELETE", "PATCH", "TRACE", "CONNECT"}).Draw(t, "method"),
		proto:    rapid.SampledFrom([]string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}).Draw(t, "proto"),
		closes:   rapid.IntRange(0, 3).Draw(t, "closer") > 0,
		code:     rapid.SampledFrom([]int{200, 200, 201, 404, 777}).Draw(t, "code"),
		headers:  rapid.Bool().Draw(t, "headers"),
		cookies:  rapid.Bool().Draw(t, "cookies"),
		withBody: rapid.IntRange(0, 4).Draw(t, "withbody") == 0,
	}
	p.asked = p.proto
	if rapid.IntRange(0, 4).Draw(t, "upgrade") == 0 {
		p.upgrade = rapid.SampledFrom([]string{"h2c", "websocket", "HTTP/1.0", "HTTP/1.1"}).Draw(t, "upgrade to")
		if p.upgraded() {
			p.proto = p.upgrade
		}
	}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 6}).Draw(t, "nsteps")
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := lib.NumOr(t, 0, 70_000, func() int {
			return rapid.SampledFrom([]int{0, 1, 3, 4, 5, 15, 16, 17, 50, 255, 256, 300, 1012, 1024, 5000}).Draw(t, "n")
		})
		if big && i == 0 {
			k = rapid.SampledFrom([]int{4095, 4096, 65535, 65536, 69000, 1048575, 1048576, 1060000}).Draw(t, "big n")
		}
		x := rapid.Uint32().Draw(t, "seed")
		for j := 0; j < k; j++ {
			x = x*1664525 + 1013904223
			b.WriteByte("0123456789abcdef\r\n;x"[x>>24%20])
		}
		p.steps = append(p.steps, step{n: k})
	}
	p.total = b.String()
	switch rapid.IntRange(0, 5).Draw(t, "ending") {
	case 0, 1:
		if n > 0 {
			p.steps[n-1].err = io.EOF
		}
	case 2:
		broken := rapid.SampledFrom([]error{errBroken, errBroken, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, context.Canceled, io.ErrShortBuffer}).Draw(t, "broken by")
		if n > 0 {
			p.steps[n-1].err = broken
		} else {
			p.steps = append(p.steps, step{0, broken})
		}
		p.fails = true
	}
	switch rapid.IntRange(0, 7).Draw(t, "sizekind") {
	case 0, 1, 2:
		p.size = len(p.total)
	case 3:
		p.size = -1
	case 4:
		p.size = len(p.total) + rapid.IntRange(1, 20).Draw(t, "more")
	case 7:
		// the stream ends early, or isn't read at all
		p.size = 1<<rapid.IntRange(21, 62).Draw(t, "huge") + len(p.total)
	case 5:
		p.size = max(0, len(p.total)-rapid.IntRange(1, 20).Draw(t, "less"))
	}
	return p
}

func (p plan) upgraded() bool { return strings.HasPrefix(p.upgrade, "HTTP/1") }

func (p plan) String() string {
	return fmt.Sprintf("%s %s (%s, upgrade %q): a stream of %d bytes by %v, size %d, closer %v, code %d, headers %v, cookies %v, body too %v",
		p.method, p.proto, p.asked, p.upgrade, len(p.total), p.steps, p.size, p.closes, p.code, p.headers, p.cookies, p.withBody)
}

func (p plan) respond(req *http.Request, s *script) *http.Response {
	r := req.Respond().Code(status.Code(p.code))
	if p.withBody {
		r.String("ignored body")
	}
	if p.closes {
		r.Attachment(closer{s}, p.size)
	} else {
		r.Attachment(s, p.size)
	}
	if p.headers {
		r.Header("X-A", "1", "2").ContentType("text/css").Header("X-Def", "mine")
	}
	if p.cookies {
		r.Cookie(cookie.New("a", "b"), cookie.Build("c", "d").HttpOnly(true).Cookie())
	}
	return r
}

// want is how the stream has to look like on the wire.
func (p plan) want() (body string, complete bool) {
	body, complete = p.total, !p.fails
	if p.size > 0 {
		if len(body) >= p.size {
			return body[:p.size], true
		}
		complete = false
	}
	return body, complete
}

func (p plan) check(r *lib.Resp, headersOnly bool) error {
	if r.Code != p.code || r.Proto != p.proto {
		return fmt.Errorf("status %s %d", r.Proto, r.Code)
	}
	switch {
	case p.size > 0:
		if !r.HasLength || r.ContentLength != p.size || r.Chunked {
			return fmt.Errorf("framing: length %v %d, chunked %v, though the size is known to be %d", r.HasLength, r.ContentLength, r.Chunked, p.size)
		}
	case p.proto == "HTTP/1.1":
		if !r.Chunked {
			return fmt.Errorf("framing: length %v %d, chunked %v, though the size is unknown", r.HasLength, r.ContentLength, r.Chunked)
		}
	default:
		if r.Chunked || r.HasLength && r.ContentLength != len(p.total) {
			return fmt.Errorf("framing: length %v %d, chunked %v in HTTP/1.0, though the size is unknown", r.HasLength, r.ContentLength, r.Chunked)
		}
	}
	ct, def, xa, ck := "text/html", "default", []string(nil), []string(nil)
	if p.headers {
		ct, def, xa = "text/css", "mine", []string{"1", "2"}
	}
	if p.cookies {
		ck = []string{"a=b", "c=d; HttpOnly"}
	}
	if v, err := r.One("Content-Type"); err != nil || v != ct {
		return fmt.Errorf("content type %q %v", v, err)
	}
	if v, err := r.One("X-Def"); err != nil || v != def {
		return fmt.Errorf("default header %q %v", v, err)
	}
	if v := r.Get("X-A"); fmt.Sprint(v) != fmt.Sprint(xa) {
		return fmt.Errorf("headers %q", v)
	}
	if v := r.Get("Set-Cookie"); fmt.Sprint(v) != fmt.Sprint(ck) {
		return fmt.Errorf("cookies %q", v)
	}
	return nil
}

func streams(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{1, 16, 17, 40, 266, 267, 300, 1024, 8192}).Draw(t, "buff")
	big := rapid.IntRange(0, 59).Draw(t, "big") == 59
	if big {
		cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{4200, 70000, 1100000}).Draw(t, "big buff")
		c.Class("large buffers")
	}
	cfg.HTTP.FileBuffSize = rapid.SampledFrom([]int{16, 40, 300, 65536}).Draw(t, "filebuff")
	cfg.Headers.Default = map[string]string{"X-Def": "default"}
	n := rapid.IntRange(1, 3).Draw(t, "nreqs")
	var (
		plans   []plan
		scripts []*script
		data    []byte
	)
	for i := 0; i < n; i++ {
		p := genPlan(t, big)
		plans = append(plans, p)
		scripts = append(scripts, &script{data: []byte(p.total), steps: append([]step(nil), p.steps...)})
		data = append(data, fmt.Sprintf("%s /%d %s\r\nConnection: keep-alive\r\n", p.method, i, p.asked)...)
		if p.upgrade != "" {
			data = append(data, "Upgrade: "+p.upgrade+"\r\n"...)
		}
		data = append(data, "\r\n"...)
		c.Logf("%v", p)
	}
	conn := lib.NewConn([][]byte{data})
	if rapid.IntRange(0, 3).Draw(t, "failwrite") == 0 {
		conn.FailWriteAt = rapid.IntRange(0, 8).Draw(t, "at")
		conn.PartialWrite = rapid.IntRange(0, 30).Draw(t, "partial")
		c.Logf("write %d fails after %d bytes", conn.FailWriteAt, conn.PartialWrite)
	}
	calls := 0
	r := &lib.Recorder{Respond: func(i int, req *http.Request, _ lib.View) *http.Response {
		calls++
		return plans[i].respond(req, scripts[i])
	}}
	if p := lib.Serve(cfg, conn, encryption.Plain, r); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	for i := 0; i < calls; i++ {
		want := 0
		if plans[i].closes {
			want = 1
		}
		if scripts[i].closed != want {
			c.Failf(t, "stream %d was closed %d times instead of %d", i, scripts[i].closed, want)
		}
		if scripts[i].afterCl > 0 {
			c.Failf(t, "stream %d was read after it had been closed", i)
		}
	}
	for i := calls; i < n; i++ {
		if scripts[i].reads+scripts[i].closed > 0 {
			c.Failf(t, "stream %d was touched though its request wasn't served", i)
		}
	}
	if conn.AfterFail > 0 {
		c.Failf(t, "%d writes after a failed one", conn.AfterFail)
	}
	out := conn.Out
	for i := 0; i < calls; i++ {
		p := plans[i]
		isLast := i == calls-1
		head := p.method == "HEAD"
		if p.upgraded() {
			switching, rest, err := lib.ParseResp(out, true)
			switch {
			case err == nil && switching.Code == 101:
				out = rest
			case !conn.WriteFailed() || !isLast || err == nil:
				c.Failf(t, "response %d: the upgrade isn't announced: %v %s", i, err, lib.Q(out))
			}
		}
		resp, rest, err := lib.ParseResp(out, head)
		if conn.WriteFailed() && isLast {
			// whatever was written is a beginning of the right response; it's enough that it isn't
			// something else and that nothing followed
			if err == nil && !resp.ToClose && len(rest) > 0 {
				c.Failf(t, "bytes after the response whose writing failed: %s", lib.Q(rest))
			}
			if resp != nil {
				if e := p.check(resp, true); e != nil {
					c.Failf(t, "response %d: %v", i, e)
				}
			}
			break
		}
		body, complete := p.want()
		if head {
			if err != nil {
				c.Failf(t, "response %d to HEAD: %v: %s", i, err, lib.Q(out))
			}
			if e := p.check(resp, true); e != nil {
				c.Failf(t, "response %d: %v: %s", i, e, lib.Q(out))
			}
			out = rest
			if isLast && i != n-1 {
				c.Failf(t, "the connection was closed after a response to HEAD")
			}
			continue
		}
		if complete {
			if err != nil {
				c.Failf(t, "response %d isn't complete: %v: %s", i, err, lib.Q(out))
			}
			if e := p.check(resp, false); e != nil {
				c.Failf(t, "response %d: %v: %s", i, e, lib.Q(out))
			}
			if string(resp.Body) != body {
				c.Failf(t, "response %d: the body (%d bytes) isn't the stream (%d bytes): %s", i, len(resp.Body), len(body), lib.Q(out))
			}
			if resp.ToClose {
				if !isLast {
					c.Failf(t, "response %d ends with the connection, but further requests are served", i)
				}
				out = nil
				break
			}
			out = rest
			if isLast && i != n-1 {
				c.Failf(t, "the connection was closed after the complete response %d", i)
			}
			continue
		}
		// an incomplete stream: must not look complete, and must end the connection
		if !isLast {
			c.Failf(t, "request %d was served after a broken stream", i+1)
		}
		if resp == nil {
			c.Failf(t, "response %d: no headers: %v %s", i, err, lib.Q(out))
		}
		if e := p.check(resp, false); e != nil {
			c.Failf(t, "response %d: %v: %s", i, e, lib.Q(out))
		}
		if err == nil && !resp.ToClose {
			c.Failf(t, "response %d looks complete, though its stream was cut: %s", i, lib.Q(out))
		}
		if err != nil && !lib.IsShort(err) {
			c.Failf(t, "response %d: %v", i, err)
		}
		if got := partialBody(out, resp); !strings.HasPrefix(body, got) {
			c.Failf(t, "response %d: the part sent isn't a beginning of the stream: %s", i, lib.Q(out))
		}
		out = nil
	}
	if !conn.WriteFailed() && len(out) > 0 {
		c.Failf(t, "unexpected output %s", lib.Q(out))
	}
	c.NonTrivial(fmt.Sprint(plans), conn.FailWriteAt, cfg.HTTP.ResponseBuffSize)
}

func partialBody(out []byte, r *lib.Resp) string {
	i := strings.Index(string(out), "\r\n\r\n")
	raw := string(out[i+4:])
	if !r.Chunked {
		return raw
	}
	var body strings.Builder
	for {
		line, rest, ok := strings.Cut(raw, "\r\n")
		if !ok {
			return body.String()
		}
		var n int
		if _, err := fmt.Sscanf(line, "%x", &n); err != nil || n == 0 {
			return body.String()
		}
		if len(rest) < n+2 {
			return body.String() + rest[:min(n, len(rest))]
		}
		body.WriteString(rest[:n])
		raw = rest[n+2:]
	}
}

func openIn(dir string) (n int) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir) {
			n++
		}
	}
	return n
}

// files: the same for files, and none stays open.
func files(t *rapid.T, c *lib.Case) {
	dir, err := os.MkdirTemp("", "c09")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	n := rapid.IntRange(1, 4).Draw(t, "nreqs")
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{16, 100, 1024}).Draw(t, "buff")
	type file struct {
		name, body, ext string
		kind, size      int
	}
	var all []file
	var data []byte
	var heads []bool
	for i := 0; i < n; i++ {
		ext := rapid.SampledFrom([]string{"", ".txt", ".css", ".unknown", ".json", ".html"}).Draw(t, "ext")
		f := file{name: fmt.Sprintf("%s/f%d%s", dir, i, ext), ext: ext, kind: rapid.IntRange(0, 5).Draw(t, "kind")}
		size := rapid.SampledFrom([]int{0, 1, 15, 16, 17, 1023, 1024, 1025, 9000}).Draw(t, "size")
		f.body = strings.Repeat(fmt.Sprintf("%d-line\r\n", i), size/8+1)[:size]
		switch f.kind {
		case 0: // missing
		case 1:
			_ = os.Mkdir(f.name, 0o755)
		default:
			if err := os.WriteFile(f.name, []byte(f.body), 0o644); err != nil {
				panic(err)
			}
		}
		m := rapid.SampledFrom([]string{"GET", "GET", "HEAD", "HEAD", "POST", "OPTIONS", "PUT", "DELETE", "PATCH"}).Draw(t, "method")
		f.size = size
		// sizes which only the head tells, as the file is a hole
		if huge := rapid.SampledFrom([]int{0, 0, 1<<31 - 1, 1 << 31, 1<<31 + 7, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1<<33 + 1<<31}).Draw(t, "huge"); m == "HEAD" && f.kind > 1 && huge > 0 {
			if os.Truncate(f.name, int64(huge)) == nil {
				f.size = huge
			}
		}
		heads = append(heads, m == "HEAD")
		data = append(data, fmt.Sprintf("%s / HTTP/1.1\r\n\r\n", m)...)
		c.Logf("%s of %s (kind %d), %d bytes", m, filepath.Base(f.name), f.kind, f.size)
		all = append(all, f)
	}
	conn := lib.NewConn([][]byte{data})
	if rapid.IntRange(0, 4).Draw(t, "failwrite") == 0 {
		conn.FailWriteAt = rapid.IntRange(0, 5).Draw(t, "at")
		c.Logf("write %d fails", conn.FailWriteAt)
	}
	r := &lib.Recorder{Respond: func(i int, req *http.Request, _ lib.View) *http.Response { return http.File(req, all[i].name) }}
	if p := lib.Serve(cfg, conn, encryption.Plain, r); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	if k := openIn(dir); k != 0 {
		c.Failf(t, "%d files stay open", k)
	}
	c.NonTrivial(string(data), fmt.Sprint(all))
	if conn.WriteFailed() {
		return
	}
	finals, _, err := lib.ParseAll(conn.Out, heads)
	if err != nil || len(finals) != n {
		c.Failf(t, "%d responses, %v: %s", len(finals), err, lib.Q(conn.Out))
	}
	for i, resp := range finals {
		f := all[i]
		if f.kind < 2 {
			if resp.Code != 404 {
				c.Failf(t, "response %d: code %d for a missing file", i, resp.Code)
			}
			continue
		}
		if ct, err := resp.One("Content-Type"); err != nil || !lib.MimeOK(f.ext, ct) || resp.Code != 200 {
			c.Failf(t, "response %d: code %d, content type %q %v for %q", i, resp.Code, ct, err, f.ext)
		}
		if f.size > 0 && (!resp.HasLength || resp.ContentLength != f.size) {
			c.Failf(t, "response %d: content length %v %d instead of %d", i, resp.HasLength, resp.ContentLength, f.size)
		}
		if !heads[i] && string(resp.Body) != f.body {
			c.Failf(t, "response %d: %d bytes differ from the file's %d", i, len(resp.Body), len(f.body))
		}
	}
}
