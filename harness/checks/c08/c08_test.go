// C08: a response on the wire is exactly the response the handler built.
package c08

import (
	"errors"
	"fmt"
	"io"
	"log"
	nethttp "net/http"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC08(t *testing.T) {
	log.SetOutput(io.Discard)
	lib.RunMore(t, "C08", everyCode,
		lib.Prop{Name: "builder", Quick: 8000, Fn: builder},
	)
}

// op is one call of the builder: what it does and what it means.
type op struct {
	name  string
	apply func(r *http.Response) *http.Response
	model func(m *model)
}

type model struct {
	code    int
	text    string
	ctype   string
	headers [][2]string
	cookies []attrs
	body    string
}

func fresh() *model { return &model{code: 200, ctype: "text/html"} }

var registered []int

func init() {
	for c := 200; c < 600; c++ {
		if nethttp.StatusText(c) != "" && c != 509 {
			registered = append(registered, c)
		}
	}
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var textGen = rapid.Custom(func(t *rapid.T) string {
	return lib.WordOr(t, lib.Printable, func() string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("abc XYZ-1'!")), 1, 20, -1).Draw(t, "text")
	})
})

var keyPool = []string{"Server", "X-A", "X-B", "Accept-Encodings", "Location", "Content-Language", "Allow", "Content-Types", "Transfer-Encodin", "Connection", "Vary",
	"Cache-Control", "Content-Disposition", "Content-Encoding", "Date", "ETag", "Expires", "Keep-Alive", "Last-Modified", "Link", "Pragma", "Retry-After", "Set-Cookie2", "Strict-Transport-Security",
	"Trailer", "Upgrade", "Via", "WWW-Authenticate", "X-Powered-By", "X-Frame-Options", "Access-Control-Allow-Origin", "Content-Range", "Accept-Ranges", "Content-Security-Policy", "Age"}

func genKey(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "keykind") > 0 {
		return lib.RandCase(t, rapid.SampledFrom(keyPool).Draw(t, "key"))
	}
	k := lib.NameGen.Draw(t, "key")
	if strings.EqualFold(k, "set-cookie") {
		return "X-" + k
	}
	return k
}

// attrs is what a cookie must carry.
type attrs struct {
	pair     string
	path     string
	domain   string
	expires  *int64
	maxAge   int
	sameSite string
	secure   bool
	httpOnly bool
}

// genCookie makes a cookie with the builder (or as a plain structure) out of attributes noted apart.
func genCookie(t *rapid.T) (cookie.Cookie, attrs) {
	name := lib.WordOr(t, func(s string) bool { return lib.Only(s, wordChars+"_-") }, func() string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ012_-")), 1, 10, -1).Draw(t, "cname")
	})
	value := lib.WordOr(t, func(s string) bool { return lib.Only(s, wordChars+"_-=/+%!") }, func() string {
		return rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ012_-=/+%!")), 0, 12, -1).Draw(t, "cvalue")
	})
	a := attrs{pair: name + "=" + value}
	b, plain := cookie.Build(name, value), cookie.New(name, value)
	// the setters in any order
	for _, what := range rapid.Permutation([]string{"path", "domain", "expires", "maxage", "samesite", "secure", "httponly"}).Draw(t, "setters") {
		if !rapid.Bool().Draw(t, what) {
			continue
		}
		switch what {
		case "path":
			a.path = rapid.SampledFrom([]string{"/", "/a", "/a/b c", "/x=y"}).Draw(t, "cpath")
			b, plain.Path = b.Path(a.path), a.path
		case "domain":
			a.domain = rapid.SampledFrom([]string{"example.com", ".a.b", "localhost", "x"}).Draw(t, "cdomain")
			b, plain.Domain = b.Domain(a.domain), a.domain
		case "expires":
			loc := time.FixedZone("X", rapid.IntRange(-12, 14).Draw(t, "zone")*3600)
			unix := rapid.Int64Range(0, 4102444800).Draw(t, "unix")
			ts := time.Unix(unix, rapid.Int64Range(0, 999999999).Draw(t, "nsec")).In(loc)
			a.expires = &unix
			b, plain.Expires = b.Expires(ts), ts
		case "maxage":
			a.maxAge = rapid.SampledFrom([]int{-1, 0, 1, 60, 3600, -100, 2147483648, 31536000}).Draw(t, "age")
			b, plain.MaxAge = b.MaxAge(a.maxAge), a.maxAge
		case "samesite":
			a.sameSite = rapid.SampledFrom([]string{"Lax", "Strict", "None"}).Draw(t, "site")
			site := map[string]cookie.SameSite{"Lax": cookie.SameSiteLax, "Strict": cookie.SameSiteStrict, "None": cookie.SameSiteNone}[a.sameSite]
			b, plain.SameSite = b.SameSite(site), site
		case "secure":
			a.secure = rapid.Bool().Draw(t, "is secure")
			b, plain.Secure = b.Secure(a.secure), a.secure
		case "httponly":
			a.httpOnly = rapid.Bool().Draw(t, "is httponly")
			b, plain.HttpOnly = b.HttpOnly(a.httpOnly), a.httpOnly
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "plain structure") == 0 {
		return plain, a
	}
	return b.Cookie(), a
}

func (m *model) header(key string, values ...string) {
	if strings.EqualFold(key, "content-type") {
		if len(values) > 0 {
			m.ctype = values[0]
		}
		return
	}
	for _, v := range values {
		m.headers = append(m.headers, [2]string{key, v})
	}
}

func genOp(t *rapid.T) op {
	switch rapid.IntRange(0, 13).Draw(t, "op") {
	case 0, 1:
		c := rapid.OneOf(rapid.SampledFrom(registered), rapid.IntRange(200, 999)).Draw(t, "code")
		return op{fmt.Sprintf("Code(%d)", c), func(r *http.Response) *http.Response { return r.Code(status.Code(c)) }, func(m *model) { m.code = c }}
	case 2:
		s := textGen.Draw(t, "status")
		if rapid.IntRange(0, 3).Draw(t, "standard text") == 0 {
			s = nethttp.StatusText(rapid.SampledFrom(registered).Draw(t, "text of"))
		}
		return op{fmt.Sprintf("Status(%q)", s), func(r *http.Response) *http.Response { return r.Status(s) }, func(m *model) { m.text = s }}
	case 3:
		s := lib.ValueGen.Draw(t, "ctype")
		return op{fmt.Sprintf("ContentType(%q)", s), func(r *http.Response) *http.Response { return r.ContentType(s) }, func(m *model) { m.ctype = s }}
	case 4, 5, 6:
		k := genKey(t)
		if rapid.IntRange(0, 9).Draw(t, "ct") == 0 {
			k = lib.RandCase(t, "Content-Type")
		}
		v := rapid.SliceOfN(lib.ValueGen, 1, 3).Draw(t, "values")
		switch rapid.IntRange(0, 59).Draw(t, "no values") {
		case 0, 1, 2:
			v = nil
		case 3:
			v[0] = lib.Noise(t, lib.NumOr(t, 1, 70_000, func() int {
				return rapid.SampledFrom([]int{255, 256, 1024, 4097, 20_000, 70_000}).Draw(t, "long value")
			}))
		case 4:
			for i := lib.NumOr(t, 1, 100, func() int { return rapid.IntRange(10, 80).Draw(t, "many values") }); i > 0; i-- {
				v = append(v, lib.Noise(t, i%7))
			}
		case 5:
			k += "-" + lib.Noise(t, rapid.SampledFrom([]int{100, 300, 5000}).Draw(t, "long key"))
		}
		return op{fmt.Sprintf("Header(%q, %q)", k, v), func(r *http.Response) *http.Response { return r.Header(k, v...) }, func(m *model) { m.header(k, v...) }}
	case 7:
		n := rapid.IntRange(0, 3).Draw(t, "nmap")
		set := map[string][]string{}
		for i := 0; i < n; i++ {
			// keys differing in more than case: the order of a map isn't specified
			set[fmt.Sprintf("%s-%d", genKey(t), i)] = rapid.SliceOfN(lib.ValueGen, 0, 2).Draw(t, "values")
		}
		return op{fmt.Sprintf("Headers(%q)", set), func(r *http.Response) *http.Response { return r.Headers(set) }, func(m *model) {
			for k, v := range set {
				m.header(k, v...)
			}
		}}
	case 8:
		b := string(lib.GenBody(t, 200))
		return op{fmt.Sprintf("String(%q)", b), func(r *http.Response) *http.Response { return r.String(b) }, func(m *model) { m.body = b }}
	case 9:
		b := string(lib.GenBody(t, 3000))
		if rapid.IntRange(0, 49).Draw(t, "large") == 49 {
			b += lib.Noise(t, lib.NumOr(t, 1, 200_000, func() int { return rapid.SampledFrom([]int{4096, 65535, 65536, 200000}).Draw(t, "more") }))
		}
		return op{fmt.Sprintf("Bytes(%d bytes)", len(b)), func(r *http.Response) *http.Response { return r.Bytes([]byte(b)) }, func(m *model) { m.body = b }}
	case 10:
		b := string(lib.GenBody(t, 100))
		return op{fmt.Sprintf("Write(%q)", b), func(r *http.Response) *http.Response { _, _ = r.Write([]byte(b)); return r }, func(m *model) { m.body += b }}
	case 11:
		n := rapid.IntRange(1, 3).Draw(t, "ncookies")
		if rapid.IntRange(0, 29).Draw(t, "many cookies") == 0 {
			n = rapid.IntRange(4, 30).Draw(t, "how many cookies")
		}
		var cs []cookie.Cookie
		var as []attrs
		for i := 0; i < n; i++ {
			ck, a := genCookie(t)
			cs, as = append(cs, ck), append(as, a)
		}
		return op{fmt.Sprintf("Cookie(%+v)", cs), func(r *http.Response) *http.Response { return r.Cookie(cs...) }, func(m *model) { m.cookies = append(m.cookies, as...) }}
	case 12:
		switch rapid.IntRange(0, 3).Draw(t, "err") {
		case 0:
			return op{"Error(nil)", func(r *http.Response) *http.Response { return r.Error(nil) }, func(m *model) {}}
		case 1:
			e := rapid.SampledFrom([]error{status.ErrNotFound, status.ErrTeapot, status.ErrBadRequest, status.ErrBodyTooLarge}).Draw(t, "httperr")
			return op{fmt.Sprintf("Error(%v)", e), func(r *http.Response) *http.Response { return r.Error(e) }, func(m *model) { m.code = int(e.(status.HTTPError).Code) }}
		case 2:
			return op{"Error(custom)", func(r *http.Response) *http.Response { return r.Error(errors.New("custom failure")) }, func(m *model) { m.code, m.body = 500, "custom failure" }}
		default:
			codes := rapid.SliceOfN(rapid.SampledFrom([]status.Code{403, 200, 503, 418, 799}), 1, 3).Draw(t, "codes")
			return op{fmt.Sprintf("Error(custom, %v)", codes), func(r *http.Response) *http.Response {
				return r.Error(errors.New("custom failure"), codes...)
			}, func(m *model) { m.code, m.body = int(codes[0]), "custom failure" }}
		}
	default:
		return op{"Clear()", func(r *http.Response) *http.Response { return r.Clear() }, func(m *model) { *m = *fresh() }}
	}
}

// start is how a response begins.
type start struct {
	name  string
	apply func(req *http.Request) *http.Response
	model func(m *model)
}

func genStart(t *rapid.T) start {
	code := rapid.SampledFrom(registered).Draw(t, "code")
	body := string(lib.GenBody(t, 50))
	switch rapid.IntRange(0, 11).Draw(t, "begin") {
	case 0:
		return start{fmt.Sprintf("http.Code(%d)", code), func(req *http.Request) *http.Response { return http.Code(req, status.Code(code)) }, func(m *model) { m.code = code }}
	case 1:
		return start{fmt.Sprintf("http.String(%q)", body), func(req *http.Request) *http.Response { return http.String(req, body) }, func(m *model) { m.body = body }}
	case 2:
		return start{fmt.Sprintf("http.Bytes(%q)", body), func(req *http.Request) *http.Response { return http.Bytes(req, []byte(body)) }, func(m *model) { m.body = body }}
	case 3:
		return start{"http.Error(custom)", func(req *http.Request) *http.Response { return http.Error(req, errors.New("custom failure")) }, func(m *model) { m.code, m.body = 500, "custom failure" }}
	case 4:
		return start{fmt.Sprintf("http.Error(custom, %d, 599)", code), func(req *http.Request) *http.Response {
			return http.Error(req, errors.New("custom failure"), status.Code(code), 599)
		}, func(m *model) { m.code, m.body = code, "custom failure" }}
	case 5:
		return start{"http.Error(gone)", func(req *http.Request) *http.Response { return http.Error(req, status.ErrGone) }, func(m *model) { m.code = 410 }}
	case 6:
		return start{"http.Respond()", http.Respond, func(*model) {}}
	case 7:
		return start{"a response given up, Respond()", func(req *http.Request) *http.Response {
			req.Respond().Code(status.Code(code)).Status("given up").Header("X-Given-Up", body).ContentType("given/up").Cookie(cookie.New("given", "up")).String(body)
			return req.Respond()
		}, func(*model) {}}
	}
	return start{"Respond()", func(req *http.Request) *http.Response { return req.Respond() }, func(*model) {}}
}

func builder(t *rapid.T, c *lib.Case) {
	cfg := config.Default()
	cfg.HTTP.ResponseBuffSize = rapid.SampledFrom([]int{1, 16, 100, 1024}).Draw(t, "buff")
	defaults := map[string]string{}
	used := map[string]bool{}
	for i := rapid.IntRange(0, 4).Draw(t, "ndefaults"); i > 0; i-- {
		k := genKey(t)
		if !used[strings.ToLower(k)] {
			used[strings.ToLower(k)] = true
			defaults[k] = lib.ValueGen.Draw(t, "default")
		}
	}
	cfg.Headers.Default = defaults
	c.Logf("default headers %q", defaults)
	n := rapid.IntRange(1, 4).Draw(t, "nreqs")
	var (
		data  []byte
		progs [][]op
		heads []bool
		proto []string
		owned = make([]int, n) // whose response is used: -1 the request's own
		objs  = make([]*http.Response, n)
		begin = make([]start, n)
	)
	for i := 0; i < n; i++ {
		m := rapid.SampledFrom([]string{"GET", "GET", "POST", "HEAD", "PUT", "OPTIONS"}).Draw(t, "method")
		p := rapid.SampledFrom([]string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}).Draw(t, "proto")
		data = append(data, fmt.Sprintf("%s /%d %s\r\nConnection: keep-alive\r\n\r\n", m, i, p)...)
		var ops []op
		k := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 8, 20}).Draw(t, "nops")
		desc := ""
		for j := 0; j < k; j++ {
			o := genOp(t)
			ops = append(ops, o)
			desc += "." + o.name
		}
		owned[i] = -1
		if rapid.IntRange(0, 3).Draw(t, "own response") == 0 {
			// made by the handler, perhaps once for several requests
			owned[i] = rapid.IntRange(0, i).Draw(t, "whose")
			if owned[owned[i]] != owned[i] {
				owned[i] = i
			}
			ops = append([]op(nil), ops...)
			if owned[i] != i {
				ops = progs[owned[i]]
				c.Class("the same response again")
			}
		}
		begin[i] = genStart(t)
		c.Logf("%s %s: %s%s, response of %d", m, p, begin[i].name, desc, owned[i])
		progs, heads, proto = append(progs, ops), append(heads, m == "HEAD"), append(proto, p)
	}
	r := &lib.Recorder{Respond: func(i int, req *http.Request, _ lib.View) *http.Response {
		resp := begin[i].apply(req)
		if k := owned[i]; k >= 0 {
			if objs[k] != nil {
				return objs[k]
			}
			resp = http.NewResponse()
			objs[k] = resp
		}
		for _, o := range progs[i] {
			resp = o.apply(resp)
		}
		return resp
	}}
	conn := lib.NewConn([][]byte{data})
	if p := lib.Serve(cfg, conn, encryption.Plain, r); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	finals, interim, err := lib.ParseAll(conn.Out, heads)
	if err != nil {
		c.Failf(t, "the output isn't a sequence of responses: %v", err)
	}
	if len(finals) != n || len(interim) != 0 {
		c.Failf(t, "%d responses and %d interim ones to %d requests: %s", len(finals), len(interim), n, lib.Q(conn.Out))
	}
	for i, got := range finals {
		want := fresh()
		if owned[i] < 0 {
			begin[i].model(want)
		}
		for _, o := range progs[i] {
			o.model(want)
		}
		if err := compare(want, got, defaults, proto[i], heads[i]); err != nil {
			c.Failf(t, "response %d: %v\n%s", i, err, lib.Q(conn.Out))
		}
		if len(progs[i]) > 0 {
			c.NonTrivial(string(conn.Out))
		}
	}
}

func compare(m *model, r *lib.Resp, defaults map[string]string, proto string, head bool) error {
	if r.Proto != proto {
		return fmt.Errorf("protocol %s instead of %s", r.Proto, proto)
	}
	if r.Code != m.code {
		return fmt.Errorf("code %d instead of %d", r.Code, m.code)
	}
	if err := statusText(r.Code, m.text, r.Text); err != nil {
		return err
	}
	if !r.HasLength || r.ContentLength != len(m.body) {
		return fmt.Errorf("content length %v %d for a body of %d bytes", r.HasLength, r.ContentLength, len(m.body))
	}
	if head && len(r.Body) != 0 {
		return fmt.Errorf("a response to HEAD has a body")
	}
	if !head && string(r.Body) != m.body {
		return fmt.Errorf("body %s instead of %s", lib.Q(r.Body), lib.Q([]byte(m.body)))
	}
	want := map[string][]string{}
	add := func(k, v string) { want[strings.ToLower(k)] = append(want[strings.ToLower(k)], k+": "+v) }
	for _, h := range m.headers {
		add(h[0], h[1])
	}
	for k, v := range defaults {
		if _, over := want[strings.ToLower(k)]; !over {
			add(k, v)
		}
	}
	add("Content-Type", m.ctype)
	got := map[string][]string{}
	var cookies []string
	for _, h := range r.Headers {
		switch lk := strings.ToLower(h[0]); lk {
		case "content-length":
		case "set-cookie":
			cookies = append(cookies, h[1])
		case "content-type":
			got[lk] = append(got[lk], "Content-Type: "+h[1])
		default:
			got[lk] = append(got[lk], h[0]+": "+h[1])
		}
	}
	if a, b := fmt.Sprintf("%q", want), fmt.Sprintf("%q", got); a != b {
		return fmt.Errorf("headers %s instead of %s", b, a)
	}
	if len(cookies) != len(m.cookies) {
		return fmt.Errorf("cookies %q instead of %d", cookies, len(m.cookies))
	}
	for i, ck := range m.cookies {
		if err := compareCookie(ck, cookies[i]); err != nil {
			return fmt.Errorf("cookie %d: %v in %q", i, err, cookies[i])
		}
	}
	return nil
}

func statusText(code int, custom, got string) error {
	want := custom
	if want == "" {
		want = nethttp.StatusText(code)
	}
	if want == "" {
		// an unregistered code: whatever text
		return nil
	}
	if got != want {
		return fmt.Errorf("status text %q instead of %q", got, want)
	}
	return nil
}

func compareCookie(c attrs, line string) error {
	parts := strings.Split(line, "; ")
	if parts[0] != c.pair {
		return fmt.Errorf("pair %q instead of %s", parts[0], c.pair)
	}
	var want, got []string
	if c.path != "" {
		want = append(want, "path="+c.path)
	}
	if c.domain != "" {
		want = append(want, "domain="+c.domain)
	}
	if c.expires != nil {
		want = append(want, "expires="+strconv.FormatInt(*c.expires, 10))
	}
	if c.maxAge > 0 {
		want = append(want, "max-age="+strconv.Itoa(c.maxAge))
	} else if c.maxAge < 0 {
		want = append(want, "max-age=0")
	}
	if c.sameSite != "" {
		want = append(want, "samesite="+c.sameSite)
	}
	if c.secure {
		want = append(want, "secure")
	}
	if c.httpOnly {
		want = append(want, "httponly")
	}
	for _, p := range parts[1:] {
		k, v, eq := strings.Cut(p, "=")
		k = strings.ToLower(k)
		switch {
		case k == "expires":
			ts, err := time.Parse("Mon, 02 Jan 2006 15:04:05 GMT", v)
			if err != nil {
				return err
			}
			v = strconv.FormatInt(ts.Unix(), 10)
		case k == "maxage" && lib.Known("F31"):
			k = "max-age"
		}
		if eq {
			k += "=" + v
		}
		got = append(got, k)
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Errorf("attributes %q instead of %q", got, want)
	}
	return nil
}

// everyCode: every code of three digits goes out as such, with the standard text if registered and
// with a custom text if given.
func everyCode(t *testing.T) {
	lib.Enumerate(t, "every code", func(check func(*lib.Case, func() error)) {
		for code := 200; code < 1000; code++ {
			for _, custom := range []string{"", "Some Text", "OK", "Not Found"} {
				c := &lib.Case{}
				c.Logf("Code(%d).Status(%q)", code, custom)
				check(c, func() error {
					r := &lib.Recorder{Respond: func(_ int, req *http.Request, _ lib.View) *http.Response {
						return req.Respond().Code(status.Code(code)).Status(custom).String("body")
					}}
					conn := lib.NewConn([][]byte{[]byte("GET / HTTP/1.1\r\n\r\n")})
					if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
						return errors.New(p)
					}
					finals, _, err := lib.ParseAll(conn.Out, nil)
					if err != nil || len(finals) != 1 {
						return fmt.Errorf("%v: %s", err, lib.Q(conn.Out))
					}
					m := fresh()
					m.code, m.text, m.body = code, custom, "body"
					c.NonTrivial(code, custom)
					return compare(m, finals[0], config.DefaultHeaders, "HTTP/1.1", false)
				})
			}
		}
	})
}
