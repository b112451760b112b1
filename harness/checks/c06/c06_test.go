// C06: every way of reading the request body yields exactly the sent bytes.
package c06

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC06(t *testing.T) {
	lib.Run(t, "C06",
		lib.Prop{Name: "programs", Quick: 9000, Fn: func(t *rapid.T, c *lib.Case) { programs(t, c, false, 50) }},
		lib.Prop{Name: "failures", Quick: 7000, Fn: func(t *rapid.T, c *lib.Case) { programs(t, c, true, 50) }},
		lib.Prop{Name: "medium", Quick: 2500, Fn: func(t *rapid.T, c *lib.Case) { programs(t, c, rapid.IntRange(0, 3).Draw(t, "broken") == 0, 2000) }},
		lib.Prop{Name: "large", Quick: 400, Fn: func(t *rapid.T, c *lib.Case) {
			programs(t, c, rapid.IntRange(0, 3).Draw(t, "broken") == 0, rapid.SampledFrom([]int{5_000, 70_000, 300_000, 1_500_000}).Draw(t, "max"))
		}},
		lib.Prop{Name: "powers", Quick: 150, Fn: func(t *rapid.T, c *lib.Case) { programs(t, c, false, 0) }},
	)
}

type op struct {
	kind int // 0 Read, 1 Retrieve, 2 Callback, 3 Bytes, 4 String, 5 Discard, 6 Callback failing
	n    int
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d)", [...]string{"Read", "Retrieve", "Callback", "Bytes", "String", "Discard", "FailingCallback"}[o.kind], o.n)
}

// the announced length
var lengthRe = regexp.MustCompile(`(?i)\ncontent-length:[ ]*(\d+)`)

var errMine = errors.New("callback refused")

// reader runs a program over a body and checks each step against the sent bytes.
type reader struct {
	want   []byte // what the body contains (the part transferred)
	whole  bool   // whether the transfer is complete and valid
	pos    int
	atEnd  bool
	failed error
	whole1 []byte // what Bytes/String returned the first time
	read1  bool
	log    []string
}

func (r *reader) take(b []byte, what string) error {
	if r.failed != nil && len(b) > 0 {
		return fmt.Errorf("%s gives %q after the error %v", what, b, r.failed)
	}
	if !strings.HasPrefix(string(r.want[r.pos:]), string(b)) {
		return fmt.Errorf("%s gives %q, but the rest of the body is %q", what, b, r.want[r.pos:])
	}
	r.pos += len(b)
	return nil
}

func (r *reader) end(err error, what string) error {
	switch {
	case err == nil:
		return nil
	case err == io.EOF:
		if !r.whole {
			return fmt.Errorf("%s reports the end of a body which isn't complete, after %d bytes", what, r.pos)
		}
		if r.pos != len(r.want) {
			return fmt.Errorf("%s reports the end of the body after %d of %d bytes", what, r.pos, len(r.want))
		}
		r.atEnd = true
	default:
		if r.whole {
			return fmt.Errorf("%s fails with %v, although the body is fine", what, err)
		}
		if r.failed == nil {
			r.failed = err
		}
	}
	return nil
}

func (r *reader) step(body http.Body, o op) error {
	what := o.String()
	switch o.kind {
	case 0:
		buf := make([]byte, o.n)
		n, err := body.Read(buf)
		if n < 0 || n > len(buf) {
			return fmt.Errorf("%s returns %d", what, n)
		}
		if e := r.take(buf[:n], what); e != nil {
			return e
		}
		if r.atEnd && (n > 0 || err != io.EOF) && o.n > 0 {
			return fmt.Errorf("%s returns %d, %v after the end", what, n, err)
		}
		return r.end(err, what)
	case 1:
		b, err := body.Retrieve()
		if e := r.take(b, what); e != nil {
			return e
		}
		if r.atEnd && (len(b) > 0 || err != io.EOF) {
			return fmt.Errorf("%s returns %q, %v after the end", what, b, err)
		}
		return r.end(err, what)
	case 2, 6:
		calls := 0
		var inner error
		err := body.Callback(func(b []byte) error {
			calls++
			if len(b) == 0 && inner == nil {
				inner = fmt.Errorf("%s is called without data", what)
			}
			if e := r.take(b, what); e != nil && inner == nil {
				inner = e
			}
			if o.kind == 6 && calls > o.n {
				return errMine
			}
			return nil
		})
		if inner != nil {
			return inner
		}
		if o.kind == 6 && calls > o.n {
			if err != errMine {
				return fmt.Errorf("%s doesn't return the callback's error but %v", what, err)
			}
			return nil
		}
		if err == nil {
			err = io.EOF
		}
		return r.end(err, what)
	case 3, 4:
		var b []byte
		var err error
		if o.kind == 3 {
			b, err = body.Bytes()
		} else {
			var s string
			s, err = body.String()
			b = []byte(s)
		}
		if err != nil {
			if r.whole {
				return fmt.Errorf("%s fails with %v, although the body is fine", what, err)
			}
			if err == io.EOF {
				return fmt.Errorf("%s returns the end of the body as an error", what)
			}
			if len(b) > 0 {
				return fmt.Errorf("%s returns %q together with the error %v", what, b, err)
			}
			if r.failed == nil {
				r.failed = err
			}
			return nil
		}
		if !r.whole {
			return fmt.Errorf("%s returns %q of an incomplete or refused body", what, b)
		}
		if r.read1 {
			if string(b) != string(r.whole1) {
				return fmt.Errorf("%s returns %q, and before %q", what, b, r.whole1)
			}
			return nil
		}
		if e := r.take(b, what); e != nil {
			return e
		}
		if r.pos != len(r.want) {
			return fmt.Errorf("%s returns %d bytes too few", what, len(r.want)-r.pos)
		}
		r.read1, r.whole1, r.atEnd = true, append([]byte(nil), b...), true
		return nil
	default:
		err := body.Discard()
		if err != nil {
			if r.whole {
				return fmt.Errorf("%s fails with %v, although the body is fine", what, err)
			}
			if r.failed == nil {
				r.failed = err
			}
			return nil
		}
		if !r.whole {
			return fmt.Errorf("%s succeeds on an incomplete or refused body", what)
		}
		r.pos = len(r.want)
		r.atEnd = true
		return nil
	}
}

type handler struct {
	readers []*reader
	progs   [][]op
	i       int
	err     error
	views   []lib.View
}

func (h *handler) OnRequest(req *http.Request) *http.Response {
	h.views = append(h.views, lib.Capture(req))
	if h.i < len(h.readers) {
		r := h.readers[h.i]
		for k, o := range h.progs[h.i] {
			if err := r.step(req.Body, o); err != nil && h.err == nil {
				h.err = fmt.Errorf("request %d, step %d: %w", h.i, k, err)
				break
			}
		}
	}
	h.i++
	return http.Respond(req)
}

func (h *handler) OnError(req *http.Request, err error) *http.Response { return http.Error(req, err) }

func genProg(t *rapid.T, whole bool) []op {
	if whole && rapid.IntRange(0, 3).Draw(t, "at once") > 0 {
		return []op{{kind: rapid.SampledFrom([]int{3, 3, 4, 2}).Draw(t, "way")}}
	}
	n := rapid.IntRange(0, 7).Draw(t, "nops")
	ops := make([]op, n)
	for i := range ops {
		ops[i].kind = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6}).Draw(t, "op")
		switch ops[i].kind {
		case 0:
			ops[i].n = lib.NumOr(t, 0, 100_000, func() int { return rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 20, 500, 100_000}).Draw(t, "size") })
		case 6:
			ops[i].n = rapid.IntRange(0, 2).Draw(t, "calls")
		}
	}
	return ops
}

func programs(t *rapid.T, c *lib.Case, broken bool, maxBody int) {
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 2, 5, 16, 4096}).Draw(t, "readbuf")
	powers := maxBody == 0
	if powers {
		maxBody = 50
		cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{4096, 5000, 65536, 200_000}).Draw(t, "large readbuf")
		cfg.Body.MaxChunkSize = 3 << 20
	} else if maxBody > 50 {
		cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{100, 4096, 5000, 65536, 200_000}).Draw(t, "large readbuf")
		cfg.Body.MaxChunkSize = int64(maxBody)
	}
	n := rapid.IntRange(1, 3).Draw(t, "nreqs")
	h := &handler{}
	var data []byte
	var reqs []*lib.Req
	bad := -1
	huge := 0
	var end error = io.EOF
	if broken {
		bad = rapid.IntRange(0, n-1).Draw(t, "bad")
	}
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Methods: []string{"POST", "PUT", "GET", "HEAD"}, Protos: []string{"HTTP/1.1"}, Conn: []string{"keep-alive"}, NoUpgrade: true, MaxHeaders: 2, MaxBody: maxBody})
		if powers && len(r.Body) > 0 && rapid.IntRange(0, 3).Draw(t, "grow") > 0 {
			grow(t, r)
		}
		rd := &reader{want: r.Body, whole: true}
		wire := r.Bytes()
		if i == bad {
			if len(r.Body) == 0 {
				t.Skip("no body to damage")
			}
			rd.whole = false
			head := len(r.Head())
			switch kind := rapid.IntRange(0, 3).Draw(t, "kind"); {
			case kind == 3 && r.Framing == lib.Length:
				// announce a length no machine can store
				huge = int(rapid.Int64Range(1<<56, 999999999999999999).Draw(t, "huge"))
				m := lengthRe.FindSubmatchIndex(wire[:head])
				if m == nil {
					t.Skip("no length")
				}
				wire = append(append(append([]byte(nil), wire[:m[2]]...), fmt.Sprint(huge)...), wire[m[3]:]...)
				if rapid.Bool().Draw(t, "limited") {
					cfg.Body.MaxSize = uint(rapid.SampledFrom([]int{60, 1000, 1 << 30, 1 << 40}).Draw(t, "maxsize"))
					for j := 0; j < i; j++ {
						if uint(len(reqs[j].Body)) > cfg.Body.MaxSize {
							t.Skip("another body is too large as well")
						}
					}
				}
				c.Logf("announces %d bytes", huge)
			case kind == 1 && r.Framing == lib.Chunked:
				// break the chunked syntax
				k := rapid.IntRange(0, len(r.Chunks)-1).Draw(t, "chunk")
				wire = append(r.Head(), breakChunk(t, r, k)...)
				wire = append(wire, "\r\nGET /next HTTP/1.1\r\n\r\n"...)
				c.Logf("broken chunk %d", k)
			case kind == 2:
				cfg.Body.MaxSize = uint(rapid.IntRange(0, len(r.Body)-1).Draw(t, "maxsize"))
				for j := 0; j < i; j++ {
					if len(reqs[j].Body) > int(cfg.Body.MaxSize) {
						t.Skip("another body is too large as well")
					}
				}
				c.Logf("maximal body size %d", cfg.Body.MaxSize)
			default:
				wire = wire[:rapid.IntRange(head, len(wire)-1).Draw(t, "cut")]
				end = rapid.SampledFrom([]error{io.EOF, lib.ErrReset, lib.ErrTimeout}).Draw(t, "end")
				c.Logf("cut short, then %v", end)
			}
		}
		prog := genProg(t, powers)
		c.Logf("request %d %s\nprogram %v", i, lib.Q(wire), prog)
		h.readers = append(h.readers, rd)
		h.progs = append(h.progs, prog)
		reqs = append(reqs, r)
		data = append(data, wire...)
		if i == bad && end != io.EOF || i == bad && len(wire) < len(r.Bytes()) {
			break
		}
	}
	cuts := lib.GenCuts(t, min(len(data), 2000))
	conn := lib.NewConn(lib.Split(data, cuts))
	conn.End = end
	conn.WithLast = rapid.Bool().Draw(t, "withlast")
	if p := lib.Serve(cfg, conn, encryption.Plain, h); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	if h.err != nil {
		c.Failf(t, "%v", h.err)
	}
	expect := len(reqs)
	if bad >= 0 && bad+1 < expect {
		expect = bad + 1
	}
	if len(h.views) != expect {
		c.Failf(t, "%d requests were served instead of %d", len(h.views), expect)
	}
	for i, v := range h.views {
		want := reqs[i].View()
		want.Body = ""
		if i == bad && huge > 0 {
			want.ContentLength = huge
		}
		if d := want.Diff(v); d != "" {
			c.Failf(t, "request %d: sent versus observed: %s", i, d)
		}
	}
	if bad >= 0 {
		rd := h.readers[bad]
		if rd.failed != nil && (cfg.Body.MaxSize < uint(len(reqs[bad].Body)) || huge > 0) && rd.failed != status.ErrBodyTooLarge {
			c.Failf(t, "an over-long body is reported as %v", rd.failed)
		}
		if rd.failed != nil && end != io.EOF && !errors.Is(rd.failed, end) {
			c.Failf(t, "the connection failed with %q, and the body with %q", end, rd.failed)
		}
		if rd.failed != nil {
			c.Class("failure observed")
		}
	}
	ops := 0
	for _, p := range h.progs {
		ops += len(p)
	}
	if ops > 1 {
		c.NonTrivial(string(data), cuts, fmt.Sprint(h.progs))
	}
}

// grow makes the body as large as a power of two, or nearly so.
func grow(t *rapid.T, r *lib.Req) {
	n := 1<<rapid.IntRange(8, 21).Draw(t, "power") + rapid.IntRange(-2, 2).Draw(t, "difference")
	seed := byte(rapid.IntRange(1, 100).Draw(t, "fill"))
	r.Body = make([]byte, n)
	for i := range r.Body {
		r.Body[i] = seed + byte(i%101) + byte(i>>11)
	}
	for i, h := range r.Headers {
		if strings.EqualFold(h.Name, "content-length") {
			r.Headers[i].Value = fmt.Sprint(n)
		}
	}
	if r.Framing == lib.Chunked {
		for i := 0; i+1 < len(r.Chunks); i++ {
			n -= r.Chunks[i]
		}
		r.Chunks[len(r.Chunks)-1] = n
	}
}

// breakChunk renders the chunked body up to the k-th chunk and damages that one.
func breakChunk(t *rapid.T, r *lib.Req, k int) []byte {
	var b []byte
	rest := r.Body
	for i := 0; i < k; i++ {
		b = append(b, fmt.Sprintf("%x\r\n%s\r\n", r.Chunks[i], rest[:r.Chunks[i]])...)
		rest = rest[r.Chunks[i]:]
	}
	n := r.Chunks[k]
	switch rapid.IntRange(0, 4).Draw(t, "break") {
	case 0:
		b = append(b, "x"...)
	case 1:
		b = append(b, fmt.Sprintf("%x\r\n%sX\r\n", n, rest[:n])...)
	case 2:
		b = append(b, fmt.Sprintf("%x\rX%s\r\n", n, rest[:n])...)
	case 3:
		b = append(b, fmt.Sprintf("-%x\r\n%s\r\n", n, rest[:n])...)
	case 4:
		b = append(b, fmt.Sprintf("fffffffffffffffff%x\r\n%s\r\n", n, rest[:n])...)
	}
	return b
}
