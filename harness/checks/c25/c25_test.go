// C25: method, protocol and status tables are faithful.
package c25

import (
	"fmt"
	nethttp "net/http"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC25(t *testing.T) {
	lib.RunMore(t, "C25", enumerate,
		lib.Prop{Name: "tokens", Quick: 12000, Fn: tokens},
		lib.Prop{Name: "request lines", Quick: 3000, Fn: requestLines},
	)
}

var methods = map[string]method.Method{
	"GET": method.GET, "HEAD": method.HEAD, "POST": method.POST, "PUT": method.PUT, "DELETE": method.DELETE,
	"CONNECT": method.CONNECT, "OPTIONS": method.OPTIONS, "TRACE": method.TRACE, "PATCH": method.PATCH,
}

var protos = map[string]proto.Proto{"HTTP/1.0": proto.HTTP10, "HTTP/1.1": proto.HTTP11, "HTTP/2.0": proto.HTTP2}

func judgeMethod(s string) error {
	if got := method.Parse(s); got != methods[s] { // the zero value is method.Unknown
		return fmt.Errorf("method %q is parsed as %d (%s)", s, got, got)
	}
	return nil
}

func judgeProto(s string) error {
	if got := proto.FromBytes([]byte(s)); got != protos[s] {
		return fmt.Errorf("protocol %q is parsed as %d (%s)", s, got, got)
	}
	return nil
}

func edits(t *rapid.T, s string) string {
	n := rapid.IntRange(0, 2).Draw(t, "edits")
	for i := 0; i < n; i++ {
		at := rapid.IntRange(0, len(s)).Draw(t, "at")
		end := min(len(s), at+1)
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			s = s[:at] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[at:]
		case 1:
			s = s[:at] + s[end:]
		case 2:
			s = s[:at] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[end:]
		case 3:
			s = s[:at] + strings.ToLower(s[at:])
		case 4:
			if at < len(s) {
				s = s[:at] + string([]byte{s[at] ^ 1<<rapid.IntRange(0, 7).Draw(t, "bit")}) + s[end:]
			}
		}
	}
	return s
}

func tokens(t *rapid.T, c *lib.Case) {
	var s string
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		s = edits(t, rapid.SampledFrom(lib.AllMethods).Draw(t, "method"))
	case 1:
		s = edits(t, rapid.SampledFrom([]string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9", "HTTP/3.0", "HTTP/1.2", "HTTP/2", "HTTP/2.1"}).Draw(t, "proto"))
	case 2:
		s = rapid.SampledFrom([]string{"", "Unknown", "UNKNOWN", "Method(0)", "get", "Get", "GETT", "GET ", " GET", "PROPFIND", "HTTP/1.1 ", "HTTP/11.", "HTTP/.11", "HTTP/1:1", "HTTP/1/1", "http/1.1", "HTTPS1.1"}).Draw(t, "special")
	default:
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "bytes"))
	}
	c.Logf("%q", s)
	if len(s) > 2 {
		c.NonTrivial(s)
	}
	if err := judgeMethod(s); err != nil {
		c.Failf(t, "%v", err)
	}
	if err := judgeProto(s); err != nil {
		c.Failf(t, "%v", err)
	}
}

// requestLines checks that only the listed tokens make a request.
func requestLines(t *rapid.T, c *lib.Case) {
	m := rapid.SampledFrom(lib.AllMethods).Draw(t, "method")
	p := rapid.SampledFrom([]string{"HTTP/1.0", "HTTP/1.1"}).Draw(t, "proto")
	if rapid.Bool().Draw(t, "edit method") {
		m = edits(t, m)
	} else {
		p = edits(t, p)
	}
	if strings.ContainsAny(m+p, " \r\n\x00") || m == "" || p == "" {
		t.Skip("another request line")
	}
	data := []byte(m + " / " + p + "\r\n\r\n")
	c.Logf("%s", lib.Q(data))
	want, known := methods[m]
	pr := protos[p]
	c.NonTrivial(m, p)
	conn := lib.NewConn([][]byte{data})
	var got []string
	r := &lib.Recorder{Respond: func(_ int, req *http.Request, _ lib.View) *http.Response {
		got = append(got, fmt.Sprintf("%d %d %s", req.Method, req.Proto, req.Method))
		return http.Respond(req)
	}}
	if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
		c.Failf(t, "%s", p)
	}
	if known && pr&proto.HTTP1 != 0 {
		if exp := fmt.Sprintf("%d %d %s", want, pr, m); len(got) != 1 || got[0] != exp {
			c.Failf(t, "the handler observed %q instead of %q", got, exp)
		}
		return
	}
	if len(got) > 0 {
		c.Failf(t, "a request with method %q and protocol %q is handled", m, p)
	}
	resps, _, err := lib.ParseAll(conn.Out, nil)
	if err != nil || len(resps) != 1 || resps[0].Code < 400 {
		c.Failf(t, "not refused: %s (%v)", lib.Q(conn.Out), err)
	}
}

var errorCodes = map[error]int{
	status.ErrBadRequest: 400, status.ErrURIDecoding: 400, status.ErrBadQuery: 400, status.ErrNotFound: 404,
	status.ErrInternalServerError: 500, status.ErrNotImplemented: 501, status.ErrMethodNotImplemented: 501,
	status.ErrMethodNotAllowed: 405, status.ErrTooLarge: 413, status.ErrBodyTooLarge: 413,
	status.ErrRequestEntityTooLarge: 413, status.ErrHeaderFieldsTooLarge: 431, status.ErrHeaderKeyTooLarge: 431,
	status.ErrHeaderValueTooLarge: 431, status.ErrTooManyHeaders: 431, status.ErrRequestHeaderFieldsTooLarge: 431,
	status.ErrURITooLong: 414, status.ErrUnsupportedProtocol: 505, status.ErrHTTPVersionNotSupported: 505,
	status.ErrUnauthorized: 401, status.ErrPaymentRequired: 402, status.ErrForbidden: 403, status.ErrNotAcceptable: 406,
	status.ErrProxyAuthRequired: 407, status.ErrRequestTimeout: 408, status.ErrConnectionTimeout: 408,
	status.ErrConflict: 409, status.ErrGone: 410, status.ErrLengthRequired: 411, status.ErrPreconditionFailed: 412,
	status.ErrUnsupportedMediaType: 415, status.ErrUnsupportedEncoding: 415, status.ErrRequestedRangeNotSatisfiable: 416,
	status.ErrExpectationFailed: 417, status.ErrTeapot: 418, status.ErrMisdirectedRequest: 421,
	status.ErrUnprocessableEntity: 422, status.ErrLocked: 423, status.ErrFailedDependency: 424, status.ErrTooEarly: 425,
	status.ErrUpgradeRequired: 426, status.ErrPreconditionRequired: 428, status.ErrTooManyRequests: 429,
	status.ErrUnavailableForLegalReasons: 451, status.ErrBadGateway: 502, status.ErrServiceUnavailable: 503,
	status.ErrGatewayTimeout: 504, status.ErrVariantAlsoNegotiates: 506, status.ErrInsufficientStorage: 507,
	status.ErrLoopDetected: 508, status.ErrNotExtended: 510, status.ErrNetworkAuthenticationRequired: 511,
}

func enumerate(t *testing.T) {
	each := func(name string, fn func(do func(what string, err func() error))) {
		lib.Enumerate(t, name, func(check func(c *lib.Case, f func() error)) {
			fn(func(what string, err func() error) {
				c := &lib.Case{}
				c.Logf("%s", what)
				check(c, func() error {
					c.NonTrivial(what)
					return err()
				})
			})
			lib.SetExhaustive()
		})
	}
	each("methods", func(do func(string, func() error)) {
		for name, m := range methods {
			do(name, func() error {
				if m == method.Unknown {
					return fmt.Errorf("%s is the unknown method", name)
				}
				if m.String() != name {
					return fmt.Errorf("%s is called %s", name, m)
				}
				listed := 0
				for _, l := range method.List {
					if l == m {
						listed++
					}
				}
				if listed != 1 || len(method.List) != len(methods) || method.Count != len(methods) {
					return fmt.Errorf("%s is listed %d times among %d (count %d)", name, listed, len(method.List), method.Count)
				}
				if method.List[m-1] != m {
					return fmt.Errorf("the list isn't indexed by value at %s", name)
				}
				return judgeMethod(name)
			})
		}
	})
	each("values", func(do func(string, func() error)) {
		for v := 0; v < 256; v++ {
			do(fmt.Sprintf("value %d", v), func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("naming the value %d panics: %v", v, p)
					}
				}()
				name := method.Method(v).String()
				if m, known := methods[name]; known && m != method.Method(v) {
					return fmt.Errorf("the method %d is called %s", v, name)
				}
				pname := strings.TrimSpace(proto.Proto(v).String())
				if pname == "HTTP/2" {
					pname = "HTTP/2.0"
				}
				if p, known := protos[pname]; known && p != proto.Proto(v) {
					return fmt.Errorf("the protocol %d is called %s", v, pname)
				}
				return nil
			})
		}
	})
	each("protocols", func(do func(string, func() error)) {
		for major := 0; major < 256; major++ {
			for minor := 0; minor < 256; minor++ {
				name := fmt.Sprintf("HTTP/%d.%d", major, minor)
				do(name, func() error {
					want := protos[name]
					if got := proto.Parse(uint8(major), uint8(minor)); got != want {
						return fmt.Errorf("version %d.%d is parsed as %s", major, minor, got)
					}
					return judgeProto(name)
				})
			}
		}
		for name, p := range map[string]proto.Proto{"HTTP/1.0": proto.HTTP10, "HTTP/1.1": proto.HTTP11, "HTTP/2": proto.HTTP2} {
			do(name, func() error {
				if strings.TrimSpace(p.String()) != name {
					return fmt.Errorf("%s is called %q", name, p)
				}
				return nil
			})
		}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				name := "HTTP/" + string([]byte{byte(i), '.', byte(j)})
				do(fmt.Sprintf("%q", name), func() error { return judgeProto(name) })
			}
		}
	})
	each("one byte off", func(do func(string, func() error)) {
		for _, tok := range append([]string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0"}, lib.AllMethods...) {
			for at := 0; at < len(tok); at++ {
				for b := 0; b < 256; b++ {
					s := tok[:at] + string([]byte{byte(b)}) + tok[at+1:]
					do(fmt.Sprintf("%q", s), func() error {
						if err := judgeMethod(s); err != nil {
							return err
						}
						return judgeProto(s)
					})
				}
			}
		}
	})
	each("codes", func(do func(string, func() error)) {
		for code := 0; code <= 65535; code++ {
			text := nethttp.StatusText(code)
			if code == int(status.CloseConnection) || code > 999 && code%97 != 0 {
				continue // the former is internal
			}
			do(fmt.Sprint(code), func() error {
				got, line := status.Text(status.Code(code)), status.Line(status.Code(code))
				if text == "" {
					if line != "" {
						return fmt.Errorf("unregistered code has the line %q", line)
					}
					if got != "Unknown Status Code" {
						return fmt.Errorf("unregistered code has the text %q", got)
					}
					return nil
				}
				if got != text {
					return fmt.Errorf("text %q instead of %q", got, text)
				}
				if want := fmt.Sprintf("%d %s\r\n", code, text); line != want {
					return fmt.Errorf("line %q instead of %q", line, want)
				}
				return nil
			})
		}
	})
	each("errors", func(do func(string, func() error)) {
		for e, code := range errorCodes {
			do(fmt.Sprintf("%d %s", code, e), func() error {
				he, ok := e.(status.HTTPError)
				if !ok {
					return fmt.Errorf("not an HTTPError: %T", e)
				}
				if int(he.Code) != code {
					return fmt.Errorf("has the code %d instead of %d", he.Code, code)
				}
				return nil
			})
		}
	})
}
