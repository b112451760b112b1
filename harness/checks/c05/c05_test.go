// C05: requests on one connection are isolated from each other.
package c05

import (
	"bytes"
	"context"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC05(t *testing.T) {
	lib.Run(t, "C05",
		lib.Prop{Name: "sequences", Quick: 6000, Fn: isolation},
	)
}

// action is what the handler of a request does; it's chosen by a header of the request itself.
type action struct {
	how      int
	query    bool
	cookies  bool
	ctx      bool
	env      bool
	resp     int
	readLate bool
	code     int // overrides the one of the response, unless zero
}

func (a action) String() string {
	return fmt.Sprintf("%d,%t,%t,%t,%t,%d,%t,%d", a.how, a.query, a.cookies, a.ctx, a.env, a.resp, a.readLate, a.code)
}

func parseAction(s string) (a action) {
	p := strings.Split(s, ",")
	if len(p) != 8 {
		return action{}
	}
	a.how, _ = strconv.Atoi(p[0])
	a.query, a.cookies, a.ctx, a.env = p[1] == "true", p[2] == "true", p[3] == "true", p[4] == "true"
	a.resp, _ = strconv.Atoi(p[5])
	a.readLate = p[6] == "true"
	a.code, _ = strconv.Atoi(p[7])
	return a
}

// seen is everything an action observed.
type seen struct {
	view  lib.View
	extra string
}

type ctxKey struct{}

type world struct {
	log []seen
}

func (w *world) handle(tag string) inbuilt.Handler {
	return func(req *http.Request) *http.Response {
		var e strings.Builder
		a := parseAction(req.Headers.Value("x-act"))
		v := lib.Capture(req)
		fmt.Fprintf(&e, "tag=%s params=%q ctx=%v %v env=%v|%q|%q hijacked=%v ", tag, pairs(req), req.Ctx.Value(ctxKey{}), req.Ctx.Err(),
			req.Env.Error, sortedAllow(req.Env.AllowedMethods), req.Env.AliasFrom, req.WasHijacked())
		if a.query {
			q, err := req.Query.Unwrap()
			if err == nil {
				fmt.Fprintf(&e, "query=%q ", fmt.Sprint(q.Unwrap()))
			} else {
				fmt.Fprintf(&e, "queryerr=%v ", err)
			}
		}
		if a.cookies {
			jar, err := req.Cookies()
			if err == nil {
				fmt.Fprintf(&e, "cookies=%q ", fmt.Sprint(jar.Unwrap()))
			} else {
				fmt.Fprintf(&e, "cookieerr=%v ", err)
			}
		}
		if a.ctx {
			req.Ctx = context.WithValue(req.Ctx, ctxKey{}, "ctx of "+v.Path)
			if a.how%2 == 0 {
				ctx, cancel := context.WithTimeout(req.Ctx, time.Hour)
				cancel()
				req.Ctx = ctx
			}
		}
		if a.env {
			req.Env.Error = status.ErrTeapot
			req.Env.AliasFrom = "/changed"
		}
		if a.how >= 0 {
			body, err := lib.ReadBody(req, a.how)
			v.Body = string(body)
			if err != nil {
				v.BodyErr = err.Error()
			}
		} else if a.how == -2 {
			var buf [3]byte
			n, err := 0, error(nil)
			for n == 0 && err == nil { // reading nothing is allowed, if there's nothing yet
				n, err = req.Body.Read(buf[:])
			}
			if n == 0 && err != nil {
				fmt.Fprintf(&e, "first read %v", err)
			}
		}
		w.log = append(w.log, seen{v, e.String()})
		resp := respond(req, a.resp)
		if resp != nil && a.code != 0 {
			resp = resp.Code(status.Code(a.code))
		}
		return resp
	}
}

func pairs(req *http.Request) string { return fmt.Sprint(req.Params.Unwrap()) }

func sortedAllow(s string) string {
	set := [10]bool{}
	for _, m := range strings.Split(s, ",") {
		for i, k := range lib.AllMethods {
			set[i] = set[i] || m == k
		}
	}
	return fmt.Sprint(set)
}

func respond(req *http.Request, kind int) *http.Response {
	switch kind {
	case 1:
		return http.String(req, "hello")
	case 2:
		return req.Respond().Code(status.Created).Header("X-One", "1", "2").Header("Accept-Encodings", "overridden").String("made")
	case 3:
		return req.Respond().ContentType("text/css").Status("Custom Text").Cookie(cookie.New("a", "b"), cookie.Build("c", "d").Path("/x").Secure(true).Expires(time.Unix(0, 0)).Cookie())
	case 4:
		return req.Respond().Attachment(strings.NewReader("attached data"), 13)
	case 5:
		return req.Respond().Attachment(bytes.NewReader(bytes.Repeat([]byte("0123456789"), 30)), 0).Header("server", "mine")
	case 6:
		return http.JSON(req, map[string]int{"a": 1})
	case 7:
		return http.Error(req, status.ErrForbidden)
	case 8:
		return req.Respond().Code(777).Header("Server", "over").Header("X-Def", "over")
	case 9:
		return nil
	case 10:
		r := req.Respond()
		_, _ = r.Write([]byte("part"))
		_, _ = r.Write([]byte("ial"))
		return r
	case 11:
		return http.Error(req, fmt.Errorf("plain error"))
	case 13:
		r := req.Respond().Code(status.Accepted)
		for i := 0; i < 25; i++ {
			r.Header(fmt.Sprintf("X-Many-%d", i), strings.Repeat("m", 7*i))
			r.Cookie(cookie.New(fmt.Sprintf("many%d", i), strings.Repeat("n", 9*i)))
		}
		return r.String(strings.Repeat("long body ", 900))
	case 12:
		return req.Respond().TransferEncoding("identity").Header("Content-Type", "x/y").String("te")
	}
	return http.Respond(req)
}

// a route of 40 dynamic segments, and a path it matches
var manyParams, manyParamsPath = func() (tmpl, path string) {
	tmpl, path = "/m", "/m"
	for i := 0; i < 40; i++ {
		tmpl += fmt.Sprintf("/{seg%d}", i)
		path += fmt.Sprintf("/v%d", i)
	}
	return tmpl, path
}()

func (w *world) router() router.Router {
	r := inbuilt.New()
	for _, p := range []string{"/", "/a", "/d/{one}", "/d/{one}/e/{two}", "/p/{a}/{b}/{c}/{d}/{e}/{f}/{g}/{h}/{i}/{j}", manyParams} {
		r.Get(p, w.handle("GET "+p)).Post(p, w.handle("POST "+p)).Delete(p, w.handle("DELETE "+p))
	}
	r.Catch("/catch", w.handle("catch"))
	r.Alias("/alias", "/d/aliased")
	r.RouteError(w.handle("404"), status.NotFound)
	r.RouteError(w.handle("any error"))
	return r.Initialize()
}

func run(cfg config.Config, data [][]byte) (seens []seen, out []byte, p string) {
	w := &world{}
	conn := lib.NewConn(data)
	// leave the connection open so that nothing but the requests themselves is observed
	conn.End = lib.ErrTimeout
	p = lib.Serve(cfg, conn, encryption.TLS, w.router())
	// the router is told when the connection ends; that isn't part of any request
	if n := len(w.log); n > 0 && strings.HasPrefix(w.log[n-1].extra, "tag=any error") && strings.Contains(w.log[n-1].extra, "internal error as a signal") {
		w.log = w.log[:n-1]
	}
	return w.log, conn.Out, p
}

func isolation(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.Headers.Default = map[string]string{"Server": "indigo"}
	switch rapid.IntRange(0, 2).Draw(t, "defaults") {
	case 1:
		cfg.Headers.Default = map[string]string{"X-Def": "default"}
	case 2:
		cfg.Headers.Default = map[string]string{"Accept-Encodings": "identity"}
	}
	n := lib.NumOr(t, 2, 30, func() int { return rapid.IntRange(2, 6).Draw(t, "nreqs") })
	var all []byte
	var parts [][]byte
	for i := 0; i < n; i++ {
		opts := lib.GenOpts{
			Paths:     []string{"/", "/a", "/d/x", "/d/yy/e/zz", "/d/q", "/catch/me", "/alias", "/nowhere", "/d/x/", "/a/b/c", "/p/1/2/3/4/5/6/7/8/9/10", "/p/1/2/3/4/5/6/7/8/9", manyParamsPath},
			Methods:   []string{"GET", "GET", "POST", "HEAD", "DELETE", "PUT", "TRACE", "PATCH"},
			Conn:      []string{"keep-alive", "x", "upgrade"},
			Protos:    []string{"HTTP/1.1"},
			UpgradeH1: true, MaxHeaders: 5, MaxBody: 40, Big: 25,
		}
		if s := lib.Segment(t); s != "" {
			opts.Paths = []string{"/" + s, "/" + s, "/d/" + s, "/catch/" + s}
		}
		r := lib.GenReq(t, opts)
		if rapid.IntRange(0, 7).Draw(t, "oldproto") == 0 {
			r.Proto = "HTTP/1.0"
			if r.Framing == lib.Chunked {
				r.Proto = "HTTP/1.1"
			} else {
				var hs []lib.Hdr
				for _, h := range r.Headers {
					if n := strings.ToLower(h.Name); n != "connection" && n != "upgrade" {
						hs = append(hs, h)
					}
				}
				r.Headers = append(hs, lib.Hdr{Name: "Connection", Pre: " ", Value: "keep-alive"})
			}
		}
		if r.Proto == "HTTP/1.1" {
			// an upgrade to HTTP/1.0 closes the connection unless asked otherwise; keep it simple
			for k, h := range r.Headers {
				if strings.EqualFold(h.Name, "upgrade") && strings.Contains(strings.ToLower(h.Value), "1.0") {
					r.Headers[k].Value = "http/1.1"
				}
			}
		}
		a := action{
			how:     rapid.IntRange(-2, 4).Draw(t, "how"),
			query:   rapid.Bool().Draw(t, "q"),
			cookies: rapid.Bool().Draw(t, "ck"),
			ctx:     rapid.Bool().Draw(t, "ctx"),
			env:     rapid.Bool().Draw(t, "env"),
			resp:    rapid.IntRange(0, 13).Draw(t, "resp"),
		}
		if rapid.IntRange(0, 3).Draw(t, "with code") == 0 {
			a.code = rapid.SampledFrom([]int{200, 201, 206, 301, 400, 404, 405, 418, 500, 503, 599}).Draw(t, "code")
		}
		if r.Proto == "HTTP/1.0" && a.resp == 5 {
			a.resp = 4 // a stream of unknown size has to end an HTTP/1.0 connection
		}
		r.Headers = append(r.Headers, lib.Hdr{Name: "X-Act", Pre: " ", Value: a.String()})
		b := r.Bytes()
		c.Logf("request %d %s", i, lib.Q(b))
		parts = append(parts, b)
		all = append(all, b...)
	}
	if rapid.IntRange(0, 2).Draw(t, "bad") == 0 {
		b := []byte(rapid.SampledFrom([]string{
			"GET / HTTP/2.0\r\n\r\n", "BAD / HTTP/1.1\r\n\r\n", "HEAD /%zz HTTP/1.1\r\n\r\n", "GET / HTTP/1.0\r\nnocolon\r\n\r\n",
			"POST /a HTTP/1.1\r\nX-Act: 0,true,true,false,false,1,false\r\nContent-Length: x\r\n\r\n",
			"GET /d/y HTTP/1.1\r\nTransfer-Encoding: gzip\r\n\r\n",
			" / HTTP/1.1\r\n\r\n", strings.Repeat("A", 70000), "GET  HTTP/1.1\r\n\r\n", "POST ?a=b HTTP/1.0\r\n\r\n",
			"HEAD /a?k=v HTTP/1.0\r\nContent-Length: 5\r\nConnection: close\r\nTransfer-Encoding: gzip,\r\n x\r\n\r\n",
		}).Draw(t, "badreq"))
		c.Logf("then %s", lib.Q(b))
		parts = append(parts, b)
		all = append(all, b...)
	}
	var want []seen
	var wantOut []byte
	for i, b := range parts {
		s, out, p := run(cfg, [][]byte{b})
		if p != "" {
			c.Failf(t, "request %d alone: serving panicked: %s", i, p)
		}
		want = append(want, s...)
		wantOut = append(wantOut, out...)
	}
	cuts := lib.GenCuts(t, len(all))
	if rapid.Bool().Draw(t, "oneeach") {
		cuts = nil
		at := 0
		for _, b := range parts {
			at += len(b)
			cuts = append(cuts, at)
		}
	}
	got, gotOut, p := run(cfg, lib.Split(all, cuts))
	if p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	for i := range want {
		if i >= len(got) {
			break
		}
		if d := want[i].view.Diff(got[i].view); d != "" {
			c.Failf(t, "handler call %d: alone versus in sequence: %s", i, d)
		}
		if want[i].extra != got[i].extra {
			c.Failf(t, "handler call %d: alone %s versus in sequence %s", i, want[i].extra, got[i].extra)
		}
		if got[i].view.Encryption != uint8(encryption.TLS) {
			c.Failf(t, "handler call %d: encryption mark %d", i, got[i].view.Encryption)
		}
	}
	if len(got) != len(want) {
		c.Failf(t, "%d handler calls in sequence, %d alone; output %s\nalone %s", len(got), len(want), lib.Q(gotOut), lib.Q(wantOut))
	}
	if a, b := canon(wantOut), canon(gotOut); !bytes.Equal(a, b) {
		c.Failf(t, "responses alone\n%s\nversus in sequence\n%s", lib.Q(a), lib.Q(b))
	}
	c.NonTrivial(string(all), cuts)
}

// canon removes what isn't specified: the order within Allow.
func canon(out []byte) []byte {
	lines := bytes.Split(out, []byte("\r\n"))
	for i, l := range lines {
		if bytes.HasPrefix(l, []byte("Allow: ")) {
			lines[i] = []byte("Allow: " + sortedAllow(string(l[7:])))
		}
	}
	return bytes.Join(lines, []byte("\r\n"))
}
