// C34: hijacking hands over the connection cleanly.
package c34

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC34(t *testing.T) {
	lib.Run(t, "C34",
		lib.Prop{Name: "hijack", Quick: 10000, Fn: hijack},
	)
}

// step is one action of the hijacking handler.
type step struct {
	kind int // 0 read, 1 write via client, 2 write via conn, 3 give back a part and read it again, 4 read everything
	data []byte
	keep int
}

func genBytes(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		return nil
	case 1:
		return []byte("GET /smuggled HTTP/1.1\r\nHost: a\r\n\r\n")
	case 2:
		n := rapid.IntRange(1, 3000).Draw(t, label+" size")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		return b
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, label)
}

type watched struct {
	router.Router
	after func()
	errs  []error
}

func (w *watched) OnRequest(req *http.Request) *http.Response {
	resp := w.Router.OnRequest(req)
	if req.WasHijacked() {
		w.after()
	}
	return resp
}

func (w *watched) OnError(req *http.Request, err error) *http.Response {
	w.errs = append(w.errs, err)
	return w.Router.OnError(req, err)
}

func hijack(t *rapid.T, c *lib.Case) {
	opts := lib.GenOpts{Methods: []string{"GET", "POST", "PUT"}, NoConn: true, MaxBody: 300, Big: 25, Protos: []string{"HTTP/1.1"}}
	var wire []byte
	before := rapid.IntRange(0, 2).Draw(t, "requests before")
	for i := 0; i < before; i++ {
		o := opts
		o.Paths = []string{"/plain"}
		r := lib.GenReq(t, o)
		r.Method = "GET"
		c.Logf("before: %q", r.Bytes())
		wire = append(wire, r.Bytes()...)
	}
	o := opts
	o.Protos = nil
	o.Paths = []string{"/hijack"}
	hr := lib.GenReq(t, o)
	if rapid.IntRange(0, 3).Draw(t, "connection header") == 0 {
		hr.Headers = append(hr.Headers, lib.Hdr{Name: "Connection", Pre: " ", Value: rapid.SampledFrom([]string{"Upgrade", "close", "keep-alive"}).Draw(t, "connection")})
	}
	payload := genBytes(t, "payload")
	c.Logf("hijacked: %q followed by %s", hr.Bytes(), lib.Q(payload))
	wire = append(wire, hr.Bytes()...)
	truncated := false
	if body := len(hr.BodyWire()); body > 0 && rapid.IntRange(0, 9).Draw(t, "truncated") == 0 {
		truncated = true
		wire = wire[:len(wire)-rapid.IntRange(1, body).Draw(t, "missing")]
		payload = nil
		c.Logf("the body is cut short")
	} else {
		wire = append(wire, payload...)
	}
	readBody := rapid.IntRange(0, 4).Draw(t, "body read before hijacking")
	steps := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) step {
		s := step{kind: rapid.IntRange(0, 4).Draw(t, "step")}
		switch s.kind {
		case 1, 2:
			s.data = genBytes(t, "written")
		case 3:
			s.keep = rapid.IntRange(0, 20).Draw(t, "keep")
		}
		return s
	}), 0, 6).Draw(t, "steps")
	response := rapid.IntRange(0, 6).Draw(t, "response")
	code := rapid.SampledFrom([]int{101, 204, 304, 400, 404, 500, 503}).Draw(t, "code")
	end := rapid.SampledFrom([]error{io.EOF, lib.ErrTimeout, lib.ErrReset}).Draw(t, "end")
	withLast := rapid.Bool().Draw(t, "end with the last bytes")

	conn := lib.NewConn(lib.Split(wire, lib.GenCuts(t, len(wire))))
	conn.End, conn.WithLast = end, withLast
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 2, 7, 64, 2048, 4096}).Draw(t, "read buffer")

	var problem error
	fail := func(format string, args ...any) {
		if problem == nil {
			problem = fmt.Errorf(format, args...)
		}
	}
	hijacked, refused, smuggled, plain := 0, 0, 0, 0
	var writtenBefore int
	var written []byte
	var read []byte
	ended := false
	var atReturn struct{ out, read, ends, outAt, deadlines int }

	run := func(client tcp.Client) {
		left := payload
		take := func() ([]byte, bool) {
			data, err := client.Read()
			if err != nil {
				if len(data) > 0 {
					fail("bytes %q along with the error %v", data, err)
				}
				if len(left) > 0 {
					fail("reading ends by %v, but %s is still to be read", err, lib.Q(left))
				}
				if !errors.Is(err, end) {
					fail("reading ends by %v instead of %v", err, end)
				}
				ended = true
				return nil, false
			}
			if len(data) > len(left) || !bytes.Equal(data, left[:len(data)]) {
				fail("the handler reads %s instead of %s", lib.Q(data), lib.Q(left))
				return nil, false
			}
			left = left[len(data):]
			read = append(read, data...)
			return data, true
		}
		for i, s := range steps {
			c.Logf("handler step %d: %d", i, s.kind)
			switch s.kind {
			case 0:
				take()
			case 1:
				if err := client.Write(s.data); err != nil {
					fail("writing: %v", err)
				}
				written = append(written, s.data...)
			case 2:
				if n, err := client.Conn().Write(s.data); err != nil || n != len(s.data) {
					fail("writing: %v", err)
				}
				written = append(written, s.data...)
			case 3:
				data, ok := take()
				if !ok {
					continue
				}
				k := s.keep
				if k > len(data) {
					k = len(data)
				}
				client.Unread(data[k:])
				back := len(data) - k
				left = payload[len(payload)-len(left)-back:]
				read = read[:len(read)-back]
				take()
			case 4:
				for {
					if _, ok := take(); !ok {
						break
					}
				}
			}
			if problem != nil {
				return
			}
		}
	}

	root := inbuilt.New()
	if rapid.Bool().Draw(t, "middlewares") {
		root.Use(middleware.Recover)
	}
	handler := func(req *http.Request) *http.Response {
		switch readBody {
		case 1:
			got, err := req.Body.Bytes()
			if !truncated && (err != nil || !bytes.Equal(got, hr.Body)) {
				fail("the body is %s, %v instead of %s", lib.Q(got), err, lib.Q(hr.Body))
			}
		case 2:
			_, _ = req.Body.Retrieve()
		case 3:
			_, _ = req.Body.Read(make([]byte, 3))
		case 4:
			_, _ = io.ReadAll(req.Body)
		}
		client, err := req.Hijack()
		if err != nil {
			refused++
			if !truncated {
				fail("hijacking fails: %v", err)
			}
			return http.Error(req, err)
		}
		if truncated {
			fail("the connection is hijacked though the body is incomplete")
		}
		hijacked++
		writtenBefore = len(conn.Out)
		run(client)
		switch response {
		case 1:
			return http.String(req, "must not be sent")
		case 2:
			return req.Respond().Attachment(bytes.NewReader([]byte("must not be sent")), 16)
		}
		switch response {
		case 3:
			return http.Code(req, status.Code(code))
		case 4:
			return http.Error(req, status.ErrForbidden)
		case 5:
			return http.Error(req, errors.New("failure"))
		case 6:
			return req.Respond().Code(status.NotFound).Header("Connection", "close").String("must not be sent")
		}
		return nil
	}
	root.Get("/hijack", handler).Post("/hijack", handler).Put("/hijack", handler)
	root.Get("/plain", func(req *http.Request) *http.Response { plain++; return http.String(req, "plain") })
	root.Catch("/", func(req *http.Request) *http.Response { smuggled++; return http.String(req, "smuggled") })
	w := &watched{Router: lib.Quiet{Router: root.Initialize()}}
	w.after = func() {
		atReturn.out, atReturn.read, atReturn.ends, atReturn.outAt, atReturn.deadlines = len(conn.Out), conn.TotalRead, conn.ReadsAtEnd, len(conn.OutAtRead), conn.Deadlines
	}
	if msg := lib.Serve(cfg, conn, encryption.Plain, w); msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	if problem != nil {
		c.Failf(t, "%v", problem)
	}
	if plain != before {
		c.Failf(t, "%d of %d requests before the hijacking one are served", plain, before)
	}
	if smuggled > 0 {
		c.Failf(t, "bytes following the hijacking request are served as a request")
	}
	if truncated {
		if hijacked != 0 {
			c.Failf(t, "hijacked with an incomplete body")
		}
		// the request stays an ordinary one, so gets its response
		finals, _, err := lib.ParseAll(conn.Out, make([]bool, before+1))
		if err != nil || len(finals) != before+1 || finals[before].Code != 500 {
			c.Failf(t, "after a failed hijacking, the client gets %s (%v)", lib.Q(conn.Out), err)
		}
		c.Class("incomplete body")
		return
	}
	if hijacked != 1 || refused != 0 {
		c.Failf(t, "the handler hijacked the connection %d times", hijacked)
	}
	heads := make([]bool, before)
	finals, _, err := lib.ParseAll(conn.Out[:writtenBefore], heads)
	if err != nil || len(finals) != before {
		c.Failf(t, "before the connection is handed over, %d responses to %d requests are sent (%v): %s", len(finals), before, err, lib.Q(conn.Out[:writtenBefore]))
	}
	if got := conn.Out[writtenBefore:]; !bytes.Equal(got, written) {
		c.Failf(t, "the handler wrote %s, the client got %s", lib.Q(written), lib.Q(got))
	}
	if atReturn.out != len(conn.Out) || atReturn.read != conn.TotalRead || atReturn.ends != conn.ReadsAtEnd || atReturn.outAt != len(conn.OutAtRead) {
		c.Failf(t, "the server used the connection after the handler returned")
	}
	if len(payload) > 0 {
		if len(read) > 0 {
			c.Class("payload read")
		}
		if ended {
			c.Class("read to the end")
		}
	}
	if len(written) > 0 {
		c.Class("written")
	}
	if len(payload) > 0 || len(hr.Body) > 0 {
		c.NonTrivial(string(wire), fmt.Sprint(steps), cfg.TCP.ReadBufferSize)
	}
}
