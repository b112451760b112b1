package lib

import (
	"bytes"
	"fmt"
	"io"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"pgregory.net/rapid"
)

var tokensOfInterest = []string{
	"\n", "\r", "\r\n", "\r\n\r\n", "\n\n", " ", ":", ": ", "%", "%2", "%zz", "?", "\x00", "\t", "HTTP/1.1", "HTTP/2.0", "HTTP/1.",
	"Content-Length: 5\r\n", "Content-Length:", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: gzip\r\n", "GET / HTTP/1.1\r\n\r\n",
	"0\r\n\r\n", "5\r\nhello\r\n", "99999999999999999999", "-1", "A", "\xff", "Foo:\n", "Foo:\r\n", ":\r\n", "Connection: close\r\n",
}

// GenStream generates what a client sends: valid requests, possibly damaged.
func GenStream(t *rapid.T, o GenOpts, maxReqs int) (data []byte, reqs []*Req, damaged bool) {
	n := rapid.IntRange(1, maxReqs).Draw(t, "nreqs")
	for i := 0; i < n; i++ {
		r := GenReq(t, o)
		reqs = append(reqs, r)
		data = append(data, r.Bytes()...)
	}
	data, damaged = Damage(t, data)
	return data, reqs, damaged
}

// Damage mutates a byte stream, or leaves it alone.
func Damage(t *rapid.T, data []byte) ([]byte, bool) {
	switch rapid.IntRange(0, 7).Draw(t, "damage") {
	case 0, 1, 2:
		return data, false
	case 3:
		return data[:rapid.IntRange(0, len(data)).Draw(t, "trunc")], true
	case 4:
		return append(data, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "tail")...), true
	case 5:
		return append(data, rapid.SampledFrom(tokensOfInterest).Draw(t, "tok")...), true
	}
	k := rapid.IntRange(1, 3).Draw(t, "nmut")
	data = append([]byte(nil), data...)
	for i := 0; i < k; i++ {
		at := rapid.IntRange(0, len(data)).Draw(t, "at")
		switch rapid.IntRange(0, 3).Draw(t, "mut") {
		case 0:
			tok := rapid.SampledFrom(tokensOfInterest).Draw(t, "tok")
			data = append(data[:at:at], append([]byte(tok), data[at:]...)...)
		case 1:
			if at < len(data) {
				data[at] = rapid.Byte().Draw(t, "b")
			}
		case 2:
			end := min(len(data), at+rapid.IntRange(1, 4).Draw(t, "del"))
			data = append(data[:at:at], data[end:]...)
		case 3:
			end := min(len(data), at+rapid.IntRange(1, 12).Draw(t, "dup"))
			data = append(data[:end:end], data[at:]...)
		}
	}
	return data, true
}

// ReadBody reads a body by one of several ways giving the same result whatever the segmentation.
func ReadBody(req *http.Request, how int) (body []byte, err error) {
	switch how % 5 {
	case 0:
		b, err := req.Body.Bytes()
		return bytes.Clone(b), err
	case 1:
		s, err := req.Body.String()
		return []byte(s), err
	case 2:
		b, err := io.ReadAll(req.Body)
		return b, err
	case 3:
		err = req.Body.Callback(func(b []byte) error {
			body = append(body, b...)
			return nil
		})
		return body, err
	default:
		for {
			b, err := req.Body.Retrieve()
			body = append(body, b...)
			if err == io.EOF {
				return body, nil
			}
			if err != nil {
				return body, err
			}
		}
	}
}

// Recorder is a router that records what it is given and answers deterministically.
type Recorder struct {
	Views  []View
	Errors []string
	// How reads the body of the i-th request; negative: leaves it alone.
	How func(i int) int
	// Respond builds the response; nil: 200 with a body naming the request.
	Respond func(i int, req *http.Request, v View) *http.Response
}

var _ router.Router = (*Recorder)(nil)

// OnRequest records the request.
func (r *Recorder) OnRequest(req *http.Request) *http.Response {
	i := len(r.Views)
	v := Capture(req)
	how := 0
	if r.How != nil {
		how = r.How(i)
	}
	if how >= 0 {
		body, err := ReadBody(req, how)
		if err != nil {
			v.BodyErr = err.Error()
			r.Views = append(r.Views, v)
			return http.Error(req, err)
		}
		v.Body = string(body)
	}
	r.Views = append(r.Views, v)
	if r.Respond != nil {
		return r.Respond(i, req, v)
	}
	return http.String(req, fmt.Sprintf("#%d %s %d", i, v.Method, len(v.Body)))
}

// OnError records the error.
func (r *Recorder) OnError(req *http.Request, err error) *http.Response {
	r.Errors = append(r.Errors, err.Error())
	return http.Error(req, err)
}

// Outcome is everything observable of serving a connection.
type Outcome struct {
	Views  []View
	Errors []string
	Out    []byte
	Panic  string
}

// Diff names the first difference, or returns "".
func (a Outcome) Diff(b Outcome) string {
	if a.Panic != b.Panic {
		return fmt.Sprintf("panic: %s\nversus\n%s", a.Panic, b.Panic)
	}
	for i := 0; i < len(a.Views) && i < len(b.Views); i++ {
		if d := a.Views[i].Diff(b.Views[i]); d != "" {
			return fmt.Sprintf("request %d: %s", i, d)
		}
	}
	if len(a.Views) != len(b.Views) {
		return fmt.Sprintf("%d requests handled versus %d", len(a.Views), len(b.Views))
	}
	if fmt.Sprint(a.Errors) != fmt.Sprint(b.Errors) {
		return fmt.Sprintf("errors %q versus %q", a.Errors, b.Errors)
	}
	if !bytes.Equal(a.Out, b.Out) {
		return fmt.Sprintf("output %s versus %s", Q(a.Out), Q(b.Out))
	}
	return ""
}

// Observe serves the segments with a recorder.
func Observe(cfg config.Config, conn *Conn, how func(int) int) Outcome {
	r := &Recorder{How: how}
	p := Serve(cfg, conn, encryption.Plain, r)
	return Outcome{Views: r.Views, Errors: r.Errors, Out: conn.Out, Panic: p}
}

// Quiet hides the notification about the end of the connection from a router.
type Quiet struct{ router.Router }

// OnError passes errors of requests only.
func (q Quiet) OnError(req *http.Request, err error) *http.Response {
	if err == status.ErrCloseConnection {
		return nil
	}
	return q.Router.OnError(req, err)
}
