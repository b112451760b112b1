// C10: one response per request, in order, and the connection persists as agreed.
package c10

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"strconv"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC10(t *testing.T) {
	log.SetOutput(io.Discard)
	lib.Run(t, "C10",
		lib.Prop{Name: "pipelines", Quick: 10000, Fn: pipelines},
		lib.Prop{Name: "write failures", Quick: 4000, Fn: writeFailures},
	)
}

type item struct {
	req  *lib.Req
	how  int
	kind int
	big  int // at least that many bytes of a body
}

func (it item) head() bool { return it.req.Method == "HEAD" }

// persists is whether the connection stays open after the response.
func (it item) persists() bool {
	if it.kind == 3 && it.req.Proto == "HTTP/1.0" && !it.head() {
		// the end of a stream of an unknown size is the end of the connection
		return false
	}
	return it.req.KeepAlive()
}

func (it item) respond(i int, req *http.Request) *http.Response {
	r := req.Respond().Header("X-Seq", strconv.Itoa(i))
	body := strings.Repeat(fmt.Sprintf("<%d>", i), i*7+it.big/3)
	switch it.kind {
	case 1:
		return r.String(body)
	case 2:
		if len(body) == 0 {
			body = "x"
		}
		return r.Attachment(strings.NewReader(body), len(body))
	case 3:
		return r.Attachment(strings.NewReader(body), -1)
	case 4:
		return r.Error(status.ErrNotFound)
	case 5:
		return r.JSON([]int{i})
	case 6:
		return r.Code(status.NoContent)
	case 7:
		return r.Error(status.ErrBadRequest).Header("Connection", "x")
	}
	return r
}

func gen(t *rapid.T, c *lib.Case, minReqs int) (items []item, data []byte, ends []int) {
	n := lib.NumOr(t, minReqs, 30, func() int { return rapid.IntRange(minReqs, 6).Draw(t, "nreqs") })
	closeBias := rapid.IntRange(0, 3).Draw(t, "bias")
	for i := 0; i < n; i++ {
		o := lib.GenOpts{MaxHeaders: 3, MaxBody: 40, Big: 40}
		if closeBias > 0 {
			o.Protos = []string{"HTTP/1.1"}
			o.Conn = []string{"keep-alive", "Keep-Alive", "upgrade", "x", "keep-alive", "close"}
		}
		r := lib.GenReq(t, o)
		if closeBias == 0 && r.Proto == "HTTP/1.0" && len(r.Values("connection")) == 0 && rapid.Bool().Draw(t, "ka") {
			r.Headers = append(r.Headers, lib.Hdr{Name: "Connection", Pre: " ", Value: rapid.SampledFrom([]string{"keep-alive", "Keep-Alive", "KEEP-ALIVE", "close", "x", "keep-alivX", "connection", "keep_alive", "clone"}).Draw(t, "conn10")})
		}
		it := item{req: r, how: rapid.IntRange(-1, 4).Draw(t, "how"), kind: rapid.IntRange(0, 7).Draw(t, "kind")}
		if rapid.IntRange(0, 15).Draw(t, "big body") == 0 {
			it.big = rapid.SampledFrom([]int{1000, 5000, 33000, 70000, 140000}).Draw(t, "big")
		}
		items = append(items, it)
		data = append(data, r.Bytes()...)
		ends = append(ends, len(data))
		c.Logf("%d: %s, read by %d, response kind %d, persists %v", i, lib.Q(r.Bytes()), it.how, it.kind, it.persists())
	}
	return items, data, ends
}

type router struct {
	lib.Recorder
	conn        *lib.Conn
	afterFailed int
}

func (r *router) OnRequest(req *http.Request) *http.Response {
	if r.conn.WriteFailed() {
		r.afterFailed++
	}
	return r.Recorder.OnRequest(req)
}

func serve(cfg config.Config, conn *lib.Conn, items []item) (*router, string) {
	r := &router{conn: conn}
	r.How = func(i int) int { return items[i%len(items)].how }
	r.Respond = func(i int, req *http.Request, _ lib.View) *http.Response { return items[i%len(items)].respond(i, req) }
	return r, lib.Serve(cfg, conn, encryption.Plain, r)
}

func pipelines(t *rapid.T, c *lib.Case) {
	items, data, ends := gen(t, c, 1)
	cuts := lib.GenCuts(t, len(data))
	if rapid.Bool().Draw(t, "separate") {
		cuts = ends
	}
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 16, 4096}).Draw(t, "readbuf")
	conn := lib.NewConn(lib.Split(data, cuts))
	if rapid.Bool().Draw(t, "timeout") {
		conn.End = lib.ErrTimeout
	}
	r, p := serve(cfg, conn, items)
	if p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	served := len(items)
	for i, it := range items {
		if !it.persists() {
			served = i + 1
			break
		}
	}
	if len(r.Views) != served {
		c.Failf(t, "%d requests were served instead of %d; errors %q", len(r.Views), served, r.Errors)
	}
	// exactly one response each, in order
	var respEnds []int
	out := conn.Out
	for i := 0; i < served; i++ {
		resp, rest, err := lib.ParseResp(out, items[i].head())
		if err != nil {
			c.Failf(t, "response %d: %v: %s", i, err, lib.Q(out))
		}
		if seq, err := resp.One("X-Seq"); err != nil || seq != strconv.Itoa(i) {
			c.Failf(t, "response %d: it's the one to %q (%v): %s", i, seq, err, lib.Q(conn.Out))
		}
		if resp.Proto != items[i].req.Proto {
			c.Failf(t, "response %d is in %s to a request in %s", i, resp.Proto, items[i].req.Proto)
		}
		out = rest
		respEnds = append(respEnds, len(conn.Out)-len(rest))
	}
	if len(out) > 0 {
		c.Failf(t, "more output than responses: %s", lib.Q(out))
	}
	// nothing received completely stays unanswered while waiting for more
	for _, at := range conn.OutAtRead {
		received, written := at[0], at[1]
		for i := 0; i < served; i++ {
			if received >= ends[i] && written < respEnds[i] {
				c.Failf(t, "having received all of request %d (%d bytes), the server reads more before answering it (%d of %d bytes written)", i, received, written, respEnds[i])
			}
		}
	}
	last := items[served-1]
	if last.persists() {
		if conn.ReadsAtEnd == 0 {
			c.Failf(t, "the connection was given up after the last response, although it's persistent")
		}
	} else {
		if last.how >= 0 || len(last.req.Body) == 0 && last.req.Framing != lib.Chunked {
			if n := conn.OutAtRead[len(conn.OutAtRead)-1]; n[1] >= respEnds[served-1] {
				c.Failf(t, "the server waits for more requests after the closing response")
			}
		}
		c.Class("closed")
	}
	if served > 1 {
		c.NonTrivial(string(data), cuts)
	}
}

func writeFailures(t *rapid.T, c *lib.Case) {
	items, data, _ := gen(t, c, 1)
	segs := lib.Split(data, lib.GenCuts(t, len(data)))
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{16, 64, 1024}).Draw(t, "buff")
	good := lib.NewConn(segs)
	if _, p := serve(cfg, good, items); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	bad := lib.NewConn(segs)
	bad.FailWriteAt = rapid.IntRange(0, max(0, good.Writes-1)).Draw(t, "failing")
	bad.PartialWrite = rapid.SampledFrom([]int{0, 1, 10, 100}).Draw(t, "partial")
	c.Logf("write %d of %d fails after %d bytes", bad.FailWriteAt, good.Writes, bad.PartialWrite)
	r, p := serve(cfg, bad, items)
	if p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	if r.afterFailed > 0 {
		c.Failf(t, "%d requests were served after writing had failed", r.afterFailed)
	}
	if bad.AfterFail > 0 {
		c.Failf(t, "%d writes were attempted after a failed one", bad.AfterFail)
	}
	if !bytes.HasPrefix(good.Out, bad.Out) {
		c.Failf(t, "the output before the failure %s isn't a beginning of the regular one %s", lib.Q(bad.Out), lib.Q(good.Out))
	}
	c.NonTrivial(string(data), bad.FailWriteAt, bad.PartialWrite)
}
