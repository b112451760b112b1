package lib

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/proto"
	"pgregory.net/rapid"
)

// Hdr is a header line: name, blanks after the colon, value.
type Hdr struct{ Name, Pre, Value string }

// Framing of a request body.
type Framing int

const (
	NoBody Framing = iota
	Length
	Chunked
)

// Req is a request as an abstract value that can be rendered to bytes.
type Req struct {
	Method   string
	Path     string // decoded
	RawPath  string // as sent
	HasQuery bool
	Query    string // as sent
	Proto    string
	Headers  []Hdr
	EOL      string
	Body     []byte
	Framing  Framing
	Chunks   []int    // sizes, Chunked only
	Exts     []string // chunk extensions, by chunk
	Trailers []Hdr
}

// Head renders everything up to the body.
func (r *Req) Head() []byte {
	var b bytes.Buffer
	b.WriteString(r.Method + " " + r.RawPath)
	if r.HasQuery {
		b.WriteString("?" + r.Query)
	}
	b.WriteString(" " + r.Proto + r.EOL)
	for _, h := range r.Headers {
		b.WriteString(h.Name + ":" + h.Pre + h.Value + r.EOL)
	}
	b.WriteString(r.EOL)
	return b.Bytes()
}

// BodyWire renders the body as transferred.
func (r *Req) BodyWire() []byte {
	switch r.Framing {
	case Length:
		return r.Body
	case Chunked:
		var b bytes.Buffer
		rest := r.Body
		for i, n := range r.Chunks {
			fmt.Fprintf(&b, "%x", n)
			if i < len(r.Exts) {
				b.WriteString(r.Exts[i])
			}
			b.WriteString("\r\n")
			b.Write(rest[:n])
			b.WriteString("\r\n")
			rest = rest[n:]
		}
		b.WriteString("0\r\n")
		for _, h := range r.Trailers {
			b.WriteString(h.Name + ":" + h.Pre + h.Value + "\r\n")
		}
		b.WriteString("\r\n")
		return b.Bytes()
	}
	return nil
}

// Bytes renders the whole request.
func (r *Req) Bytes() []byte { return append(r.Head(), r.BodyWire()...) }

// Values returns the values of a header.
func (r *Req) Values(name string) (vals []string) {
	for _, h := range r.Headers {
		if strings.EqualFold(h.Name, name) {
			vals = append(vals, h.Value)
		}
	}
	return vals
}

// KeepAlive is the connection persistence the request asks for.
func (r *Req) KeepAlive() bool {
	conn := ""
	if v := r.Values("connection"); len(v) > 0 {
		conn = v[len(v)-1]
	}
	if r.Proto == "HTTP/1.0" {
		return strings.EqualFold(conn, "keep-alive")
	}
	return !strings.EqualFold(conn, "close")
}

// View is everything a handler can observe of a request.
type View struct {
	Method, Path, RawQuery, Proto string
	Headers                       []string // "name: value"
	ContentLength                 int
	ContentType, Connection       string
	Upgrade                       string
	Transfer, Content             []string
	Chunked, HasTrailer           bool
	Body                          string
	BodyErr                       string
	Remote                        string
	Encryption                    uint8
	Identity                      bool
}

func (v View) String() string { return fmt.Sprintf("%+q", fmt.Sprintf("%+v", v.flat())) }

func (v View) flat() []any {
	return []any{v.Method, v.Path, v.RawQuery, v.Proto, v.Headers, v.ContentLength, v.ContentType, v.Connection,
		v.Upgrade, v.Transfer, v.Content, v.Chunked, v.HasTrailer, v.Body, v.BodyErr, v.Remote, v.Encryption, v.Identity}
}

// Diff names the first difference between two views, or returns "".
func (v View) Diff(w View) string {
	names := []string{"method", "path", "raw query", "proto", "headers", "content length", "content type", "connection",
		"upgrade", "transfer codings", "content codings", "chunked", "has trailer", "body", "body error", "remote", "encryption", "identity"}
	a, b := v.flat(), w.flat()
	for i := range a {
		x, y := fmt.Sprintf("%q", a[i]), fmt.Sprintf("%q", b[i])
		if x != y {
			return fmt.Sprintf("%s: %s != %s", names[i], cut(x), cut(y))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-200:]
	}
	return s
}

// Capture copies everything observable except the body.
func Capture(req *http.Request) View {
	v := View{
		Method:        strings.Clone(req.Method.String()),
		Path:          strings.Clone(req.Path),
		RawQuery:      string(req.Query.Raw()),
		Proto:         strings.TrimSpace(req.Proto.String()),
		ContentLength: req.ContentLength,
		ContentType:   strings.Clone(req.ContentType),
		Connection:    strings.Clone(req.Connection),
		Chunked:       req.Encoding.Chunked,
		HasTrailer:    req.Encoding.HasTrailer,
		Encryption:    uint8(req.Env.Encryption),
		Identity:      req.Encoding.Identity(),
	}
	if req.Upgrade != proto.Unknown {
		v.Upgrade = strings.TrimSpace(req.Upgrade.String())
	}
	if req.Remote != nil {
		v.Remote = req.Remote.String()
	}
	for _, p := range req.Headers.Unwrap() {
		if strings.EqualFold(p.Key, "content-length") {
			// the length is exposed as a number; whether it's in the list as well isn't specified
			continue
		}
		v.Headers = append(v.Headers, strings.Clone(p.Key)+": "+strings.Clone(p.Value))
	}
	for _, s := range req.Encoding.Transfer {
		v.Transfer = append(v.Transfer, strings.Clone(s))
	}
	for _, s := range req.Encoding.Content {
		v.Content = append(v.Content, strings.Clone(s))
	}
	return v
}

// CaptureAll also reads the body at once.
func CaptureAll(req *http.Request) View {
	v := Capture(req)
	body, err := req.Body.Bytes()
	v.Body = string(body)
	if err != nil {
		v.Body = ""
		v.BodyErr = err.Error()
	}
	return v
}

// View is what a handler should observe of the request.
func (r *Req) View() View {
	v := View{
		Method: r.Method, Path: r.Path, Proto: r.Proto, Remote: "192.0.2.1:1234", Body: string(r.Body),
	}
	if r.HasQuery {
		v.RawQuery = r.Query
	}
	for _, h := range r.Headers {
		switch strings.ToLower(h.Name) {
		case "content-length":
			v.ContentLength, _ = strconv.Atoi(h.Value)
			continue
		case "content-type":
			v.ContentType = h.Value
		case "connection":
			v.Connection = h.Value
		case "upgrade":
			v.Upgrade = chooseUpgrade(h.Value)
		case "trailer":
			v.HasTrailer = true
		case "transfer-encoding":
			v.Transfer = append(v.Transfer, tokens(h.Value)...)
			v.Chunked = true
		case "content-encoding":
			v.Content = append(v.Content, tokens(h.Value)...)
		}
		v.Headers = append(v.Headers, h.Name+": "+h.Value)
	}
	v.Identity = len(v.Transfer) == 0 && len(v.Content) == 0
	return v
}

func tokens(s string) (toks []string) {
	for _, t := range strings.Split(s, ",") {
		if t = strings.TrimSpace(t); t != "" {
			toks = append(toks, t)
		}
	}
	return toks
}

func chooseUpgrade(s string) string {
	for _, t := range tokens(s) {
		switch t {
		case "http/1.0", "HTTP/1.0":
			return "HTTP/1.0"
		case "http/1.1", "HTTP/1.1":
			return "HTTP/1.1"
		case "h2c", "H2C":
			return "HTTP/2"
		}
	}
	return ""
}

// GenOpts steers the request generator.
type GenOpts struct {
	Methods     []string
	Protos      []string
	MaxHeaders  int
	MaxBody     int
	NoBody      bool
	NoConn      bool // no Connection header
	Conn        []string
	NoUpgrade   bool
	UpgradeH1   bool // allow upgrades to HTTP/1.x (makes the server send 101)
	NoBareLF    bool
	Paths       []string // fixed decoded paths, sent unescaped
	NoQuery     bool
	NoChunked   bool
	SimpleNames bool
	Big         int // one of so many requests is inflated, 0 for none
	Most        int // the number of headers an inflated request has at most, 46 if 0, leaving place for some more
}

// AllMethods are the supported methods.
var AllMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."

// NameGen generates header names which aren't specially treated by the protocol.
var NameGen = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 8).Draw(t, "nearmiss") {
	case 0:
		return rapid.SampledFrom(nearNames).Draw(t, "name")
	case 1, 2:
		return RandCase(t, rapid.SampledFrom(realNames).Draw(t, "name"))
	}
	s := WordOr(t, func(s string) bool { return Only(s, nameChars) }, func() string {
		n := NumOr(t, 1, 90, func() int { return rapid.IntRange(1, 20).Draw(t, "namelen") })
		if n > 20 {
			return Noise(t, n)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = nameChars[rapid.IntRange(0, len(nameChars)-1).Draw(t, "c")]
		}
		return string(b)
	})
	switch strings.ToLower(s) {
	case "content-length", "content-type", "connection", "upgrade", "trailer", "transfer-encoding", "content-encoding", "cookie", "host":
		return "X-" + s
	}
	return s
})

// names that share a length or prefix with the specially treated ones
var nearNames = []string{
	"Content-Lengt", "Content-Lengths", "Content_Length", "Content-Lenght", "Xontent-Length", "Content-lengti",
	"Content-Typo", "Content-Tape", "ContentType", "Contend-Type", "Content-MD5", "Content-Typ3",
	"Connectiom", "Connection-", "Konnection", "Connect", "Connectoin",
	"Upgrad3", "Upgrades", "Upgraxe", "Traile", "Trailers", "Trailor",
	"Content-Encodinh", "Content-Encodin", "Kontent-Encoding", "Content-Language",
	"Transfer-Encodinh", "Transfer-Encodin", "Transfer-Encodings", "Transfer_Encoding", "Xransfer-Encoding",
	"Host-", "Accept", "User-Agent", "Accept-Encoding", "Cookies",
}

// names in common use which mean nothing to the server itself
var realNames = []string{
	"Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language", "Accept-Ranges", "Age", "Authorization", "Cache-Control", "Content-Disposition",
	"Content-Language", "Content-Location", "Content-MD5", "Content-Range", "Date", "DNT", "ETag", "Expect", "Expires", "Forwarded", "From",
	"HTTP2-Settings", "If-Match", "If-Modified-Since", "If-None-Match", "If-Range", "If-Unmodified-Since", "Keep-Alive", "Last-Modified", "Link",
	"Location", "Max-Forwards", "Origin", "Pragma", "Prefer", "Proxy-Authorization", "Proxy-Connection", "Range", "Referer", "Sec-Fetch-Mode",
	"Sec-WebSocket-Key", "Sec-WebSocket-Version", "Server", "Set-Cookie", "TE", "User-Agent", "Vary", "Via", "Warning", "X-CSRF-Token",
	"X-Forwarded-For", "X-Forwarded-Host", "X-Forwarded-Proto", "X-HTTP-Method-Override", "X-Real-IP", "X-Request-ID", "X-Requested-With", "X-Original-URL", "X-Rewrite-URL",
}

// headers which other servers and frameworks act upon, unlike this one
var realPairs = [][2]string{
	{"X-HTTP-Method-Override", "DELETE"}, {"X-HTTP-Method-Override", "GET"}, {"X-HTTP-Method-Override", "PUT"}, {"X-HTTP-Method", "PATCH"}, {"X-Method-Override", "POST"},
	{"Expect", "100-continue"}, {"Range", "bytes=0-1"}, {"Range", "bytes=2-"}, {"Range", "bytes=-1"}, {"If-None-Match", "*"}, {"If-Match", "*"}, {"If-None-Match", "\"etag\""},
	{"If-Modified-Since", "Fri, 31 Dec 2100 23:59:59 GMT"}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"},
	{"X-Original-URL", "/admin"}, {"X-Rewrite-URL", "/a"}, {"X-Forwarded-Proto", "https"}, {"X-Forwarded-For", "10.1.2.3"}, {"X-Forwarded-Host", "evil.example"}, {"X-Real-IP", "10.1.2.3"},
	{"Forwarded", "for=10.1.2.3;proto=https;host=evil.example"}, {"Proxy-Connection", "close"}, {"Proxy-Connection", "keep-alive"}, {"Keep-Alive", "timeout=0, max=0"}, {"Keep-Alive", "timeout=5, max=1"},
	{"TE", "trailers"}, {"TE", "gzip"}, {"Accept-Encoding", "gzip"}, {"Accept-Encoding", "identity;q=0"}, {"Accept", "application/json"}, {"Accept", "nothing/atall"}, {"Accept-Ranges", "bytes"},
	{"Max-Forwards", "0"}, {"X-Requested-With", "XMLHttpRequest"}, {"X-Content-Length", "3"}, {"X-Transfer-Encoding", "chunked"}, {"Content-Range", "bytes 0-1/2"}, {"X-Accel-Redirect", "/a"},
	{"X-Sendfile", "/etc/hostname"}, {"Sec-WebSocket-Key", "dGhlIHNhbXBsZSBub25jZQ=="}, {"HTTP2-Settings", "AAMAAABkAAQAAP__"}, {"Upgrade-Insecure-Requests", "1"}, {"X-Remote-Addr", "10.1.2.3"},
	{"Prefer", "return=minimal"}, {"Cache-Control", "no-store"}, {"Pragma", "no-cache"}, {"Location", "/a"}, {"Status", "500"}, {"Date", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"X-Debug", "1"},
	{"Proxy", "http://evil.example"}, {"Transfer_Encoding", "chunked"}, {"Content_Length", "3"}, {"Via", "1.1 proxy"}, {"Server", "x"}, {"Set-Cookie", "a=b"}, {"Cookie2", "$Version=1"},
	{"Origin", "null"}, {"Referer", "http://example.com/?a=b"}, {"DNT", "1"}, {"Early-Data", "1"}, {"Content-Disposition", "form-data; name=a"}, {"Authorization", "Basic dXNlcjpwYXNz"},
	{"Proxy-Authorization", "Basic dXNlcjpwYXNz"}, {"Priority", "u=0"}, {"X-Request-ID", "1"}, {"Traceparent", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"}, {"Content-MD5", "x"},
	{"Content-Language", "en"}, {"Content-Location", "/a"}, {"Trailers", "a"}, {"Upgraded", "HTTP/1.0"}, {"Connections", "close"}, {"User-Agent", ""}, {"Access-Control-Request-Method", "PUT"},
}

// values in common use
var realValues = []string{
	"100-continue", "*/*", "gzip, deflate, br", "bytes=0-10", "bytes=5-", "Mon, 02 Jan 2006 15:04:05 GMT", "W/\"etag\"", "\"etag\"", "*", "no-cache", "max-age=0", "trailers",
	"text/html,application/xhtml+xml;q=0.9", "Basic dXNlcjpwYXNz", "Bearer a.b.c", "127.0.0.1", "10.0.0.1, 10.0.0.2", "https", "http://example.com/a?b=c", "DELETE", "PUT",
	"timeout=5, max=100", "close", "keep-alive", "chunked", "identity", "1", "0", "-1", "true", "for=192.0.2.60;proto=http", "en-US,en;q=0.5", "XMLHttpRequest", "13", "form-data; name=\"a\"",
	"/admin", "/", "AAMAAABkAAQAAP__",
}

// ValueGen generates header values: no control bytes, no blanks at the ends.
var ValueGen = rapid.Custom(func(t *rapid.T) string {
	if rapid.IntRange(0, 7).Draw(t, "real value") == 0 {
		return rapid.SampledFrom(realValues).Draw(t, "value")
	}
	if Hit(t) {
		if rapid.Bool().Draw(t, "words") {
			return strings.Trim(strings.Map(func(r rune) rune {
				if r < ' ' || r == 0x7f {
					return -1
				}
				return r
			}, Word(t)), " ")
		}
		return Noise(t, Num(t, 0, 300))
	}
	n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 12, 20, 40}).Draw(t, "vallen")
	b := make([]byte, n)
	for i := range b {
		switch rapid.IntRange(0, 9).Draw(t, "vk") {
		case 0:
			b[i] = byte(rapid.IntRange(0x80, 0xff).Draw(t, "hi"))
		case 1:
			b[i] = rapid.SampledFrom([]byte(" \t:;,=\"%?/")).Draw(t, "punct")
		default:
			b[i] = byte(rapid.IntRange(0x21, 0x7e).Draw(t, "ch"))
		}
	}
	return strings.Trim(string(b), " \t")
})

// RandCase changes the case of letters.
func RandCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	mask := rapid.Uint64().Draw(t, "casemask")
	for i := range b {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' && mask>>(i%64)&1 == 1 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// paths in common use
var realPaths = []string{
	"/index.html", "/favicon.ico", "/robots.txt", "/.well-known/acme-challenge/token", "/api/v1/users/42", "/a/b/c/", "//", "/./", "/a/../b", "/.git/config", "/metrics", "/healthz",
	"/wp-login.php", "/admin", "/static/app.min.js", "/search", "/http://example.com/", "/a//b", "/~user/", "/a;b=c/d",
}

// GenPath generates a decoded path and an encoding of it.
func GenPath(t *rapid.T) (path, raw string) {
	if rapid.IntRange(0, 11).Draw(t, "real path") == 0 {
		path = rapid.SampledFrom(realPaths).Draw(t, "path")
		return path, path
	}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 6, 10, 20}).Draw(t, "pathlen")
	var p, w strings.Builder
	p.WriteByte('/')
	w.WriteByte('/')
	if Hit(t) {
		s := strings.TrimPrefix(Word(t), "/")
		if rapid.IntRange(0, 3).Draw(t, "sized") == 3 {
			s = Noise(t, Num(t, 1, 300))
		}
		p.WriteString(s)
		w.WriteString(Escape(s))
		if rapid.Bool().Draw(t, "exact") {
			return p.String(), w.String()
		}
		p.WriteByte('/')
		w.WriteByte('/')
	}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 9).Draw(t, "pk")
		switch {
		case k < 5:
			c := rapid.SampledFrom([]byte("abcdefghijKLMNOP0123456789/.-_~!$&'()*+,;=:@")).Draw(t, "pc")
			p.WriteByte(c)
			w.WriteByte(c)
		case k < 8:
			c := byte(rapid.IntRange(0, 255).Draw(t, "pb"))
			p.WriteByte(c)
			if rapid.Bool().Draw(t, "up") {
				fmt.Fprintf(&w, "%%%02X", c)
			} else {
				fmt.Fprintf(&w, "%%%02x", c)
			}
		case k == 8:
			c := rapid.SampledFrom([]byte("/..//a#|^`{}\"<>\\[]")).Draw(t, "px")
			p.WriteByte(c)
			w.WriteByte(c)
		default:
			c := byte(rapid.IntRange(0x80, 0xff).Draw(t, "ph"))
			p.WriteByte(c)
			w.WriteByte(c)
		}
	}
	return p.String(), w.String()
}

// Escape encodes everything that may not be in a path as it is.
func Escape(s string) string {
	var w strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(nameChars+"/~!$&'()*+,;=:@", s[i]) >= 0 {
			w.WriteByte(s[i])
		} else {
			fmt.Fprintf(&w, "%%%02X", s[i])
		}
	}
	return w.String()
}

// bodies of formats in common use
var realBodies = []string{
	"\xef\xbb\xbf{\"a\": 1}", "\xef\xbb\xbf", "\xff\xfea\x00", "\xfe\xff\x00a", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x78\x9c\x03\x00\x00\x00\x00\x01",
	"{\"a\":[1,2,{\"b\":null}]}", "[]", "null", "\"\"", "a=1&b=2&c=%20+", "<?xml version=\"1.0\"?><a/>", "--sep\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--sep--\r\n",
	"\x89PNG\r\n\x1a\n\x00\x00", "%PDF-1.7\n%\xe2\xe3", "PK\x03\x04\x14\x00", "\x00", "\x00\x00\x00\x00", "\n", "\r\n", "\r\n\r\n", " ", "  padded  ", "0", "0\r\n\r\n", "5\r\nhello\r\n0\r\n\r\n",
	"HTTP/1.1 200 OK\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00\x01", "line one\nline two\n", "tab\tand\vcontrols\x7f", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "\xc3", "#!/bin/sh\necho\n",
}

// GenBody generates a body: arbitrary bytes, or text looking like a request.
func GenBody(t *rapid.T, max int) []byte {
	if max == 0 {
		return nil
	}
	if Hit(t) {
		if rapid.Bool().Draw(t, "words") {
			s := Word(t)
			for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
				s += rapid.SampledFrom([]string{"=", "&", " ", "\r\n", ": ", ""}).Draw(t, "sep") + Word(t)
			}
			return []byte(s)[:min(len(s), max)]
		}
		return []byte(Noise(t, Num(t, 1, max)))
	}
	switch rapid.IntRange(0, 5).Draw(t, "bodykind") {
	case 5:
		s := []byte(rapid.SampledFrom(realBodies).Draw(t, "body"))
		if len(s) > max {
			s = s[:max]
		}
		return s
	case 0:
		s := []byte("GET /smuggled HTTP/1.1\r\nHost: x\r\n\r\n0\r\n\r\n")
		if len(s) > max {
			s = s[:max]
		}
		return s
	case 1:
		n := rapid.IntRange(0, max).Draw(t, "bodylen")
		b := make([]byte, n)
		x := rapid.Uint32().Draw(t, "bodyseed")
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return b
	case 2:
		b := []byte(rapid.StringOfN(rapid.SampledFrom([]rune("\r\n0123456789abcdef;: x")), 0, min(max, 30), min(max, 30)).Draw(t, "bodytext"))
		return b
	default:
		n := rapid.IntRange(1, min(max, 12)).Draw(t, "bodylen")
		return []byte("body" + strings.Repeat("x", n))[:n]
	}
}

// GenReq generates a valid request.
func GenReq(t *rapid.T, o GenOpts) *Req {
	r := &Req{EOL: "\r\n"}
	methods := o.Methods
	if methods == nil {
		methods = AllMethods
	}
	r.Method = rapid.SampledFrom(methods).Draw(t, "method")
	protos := o.Protos
	if protos == nil {
		protos = []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}
	}
	r.Proto = rapid.SampledFrom(protos).Draw(t, "proto")
	if len(o.Paths) > 0 {
		r.Path = rapid.SampledFrom(o.Paths).Draw(t, "path")
		r.RawPath = r.Path
	} else {
		r.Path, r.RawPath = GenPath(t)
	}
	if !o.NoQuery && rapid.IntRange(0, 2).Draw(t, "hasquery") == 0 {
		r.HasQuery = true
		r.Query = rapid.StringOfN(rapid.SampledFrom([]rune("abcXYZ019=&=&%+?/;:~-._")), 0, 24, 24).Draw(t, "query")
		if Hit(t) {
			if s := Word(t); Only(s, nameChars+"=&%+?/;:~") {
				r.Query = s + rapid.SampledFrom([]string{"", "=", "=x", "&"}).Draw(t, "sep") + r.Query
			}
		}
	}
	if !o.NoBareLF && rapid.IntRange(0, 4).Draw(t, "lf") == 0 {
		r.EOL = "\n"
	}
	maxh := o.MaxHeaders
	if maxh == 0 {
		maxh = 6
	}
	nh := NumOr(t, 0, maxh, func() int { return rapid.IntRange(0, maxh).Draw(t, "nheaders") })
	for i := 0; i < nh; i++ {
		h := o.header(t)
		switch strings.ToLower(h.Name) {
		case "connection", "upgrade", "content-type":
			// which one of several wins isn't specified
			if len(r.Values(h.Name)) > 0 {
				continue
			}
		}
		r.Headers = append(r.Headers, h)
	}
	big := o.Big > 0 && rapid.IntRange(1, o.Big).Draw(t, "big") == o.Big
	if big && !o.NoBody {
		o.MaxBody = 20_000
	}
	if !o.NoBody {
		o.body(t, r)
	}
	if big {
		Inflate(t, r, o)
	}
	return r
}

// Noise is n printable characters out of a seed, without immediate repetitions of longer pieces.
func Noise(t *rapid.T, n int) string {
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
	x := rapid.Uint32().Draw(t, "noise")
	b := make([]byte, n)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = chars[x>>26]
	}
	return string(b)
}

// Inflate makes a request large in some of its parts, within the default limits: beyond every
// buffer's and list's default size, so that they have to grow.
func Inflate(t *rapid.T, r *Req, o GenOpts) {
	fixedPath, noQuery, most := len(o.Paths) > 0, o.NoQuery, o.Most
	if most == 0 {
		most = 46
	}
	parts := rapid.IntRange(1, 7).Draw(t, "inflate")
	if parts&1 != 0 {
		nh := NumOr(t, 1, 50, func() int { return rapid.IntRange(1, 40).Draw(t, "morehdrs") })
		keys, values := 3000, 7000
		vls, nls := []int{0, 1, 15, 60, 300, 1100, 2000, 4097, 6500}, []int{1, 1, 20, 60, 90}
		if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
			// as many as allowed
			nh, vls, nls = 50, []int{0, 1, 15, 60}, []int{1, 2, 20}
		}
		for i := 0; i < nh && len(r.Headers) < most; i++ {
			n := min(NumOr(t, 0, 6500, func() int { return rapid.SampledFrom(vls).Draw(t, "vl") }), values-8)
			k := rapid.SampledFrom(nls).Draw(t, "nl")
			if n < 0 || k+6 > keys {
				break
			}
			h := Hdr{fmt.Sprintf("X-%d-%s", i, Noise(t, k)), " ", Noise(t, n)}
			values -= n + 4
			keys -= len(h.Name)
			r.insert(t, h)
		}
	}
	if parts&2 != 0 && !fixedPath {
		s := Noise(t, NumOr(t, 1, 20000, func() int {
			return rapid.SampledFrom([]int{100, 255, 256, 1000, 2030, 2047, 2048, 5000, 20000}).Draw(t, "pathpad")
		}))
		r.Path += s
		r.RawPath += s
		// escapes far from the beginning
		for i := rapid.IntRange(0, 2).Draw(t, "lateescapes"); i > 0; i-- {
			c := byte(rapid.IntRange(0, 255).Draw(t, "late"))
			r.Path += string([]byte{c}) + "z"
			r.RawPath += fmt.Sprintf("%%%02xz", c)
		}
	}
	if parts&4 != 0 && !noQuery {
		if !r.HasQuery {
			r.HasQuery, r.Query = true, "q="
		}
		r.Query += Noise(t, NumOr(t, 1, 20000, func() int { return rapid.SampledFrom([]int{100, 300, 2047, 3000, 20000}).Draw(t, "qpad") }))
	}
}

var pres = []string{" ", " ", " ", "", "  ", "    "}

func (o GenOpts) header(t *rapid.T) Hdr {
	pre := rapid.SampledFrom(pres).Draw(t, "pre")
	k := rapid.IntRange(0, 13).Draw(t, "hk")
	switch {
	case k == 0:
		return Hdr{RandCase(t, "Content-Type"), pre, ValueGen.Draw(t, "ct")}
	case k == 1 && !o.NoConn:
		conns := o.Conn
		if conns == nil {
			conns = []string{"keep-alive", "Keep-Alive", "keep-alive", "close", "upgrade", "KEEP-ALIVE", "Close", "x", "keep-alivX", "connection", "clone", "closed"}
		}
		v := rapid.SampledFrom(conns).Draw(t, "conn")
		if rapid.IntRange(0, 3).Draw(t, "conncase") == 0 {
			v = RandCase(t, v)
		}
		return Hdr{RandCase(t, "Connection"), pre, v}
	case k == 2 && !o.NoUpgrade:
		ups := []string{"h2c", "websocket", "H2C", "foo, h2c", "http/1.2", "HTTP/2", "", "h2c, http/1.1"}
		if o.UpgradeH1 {
			ups = append(ups, "http/1.1", "HTTP/1.0", "http/1.0, http/1.1", "foo,HTTP/1.1 , h2c", "http/1.1,http/1.0")
		}
		return Hdr{RandCase(t, "Upgrade"), pre, rapid.SampledFrom(ups).Draw(t, "up")}
	case k == 3:
		return Hdr{RandCase(t, "Content-Encoding"), pre, rapid.SampledFrom([]string{"gzip", "identity", "gzip, br", "gzip,br ,x", ""}).Draw(t, "ce")}
	case k == 4:
		return Hdr{RandCase(t, "Host"), pre, rapid.SampledFrom([]string{"localhost", "example.com:8080", "a.b"}).Draw(t, "host")}
	case k == 5:
		return Hdr{RandCase(t, "Cookie"), pre, rapid.SampledFrom([]string{"a=b", "a=b; c=d", "sess=1;x=y", "e="}).Draw(t, "cookie")}
	case k == 6 && rapid.IntRange(0, 2).Draw(t, "trailerhdr") == 0:
		return Hdr{RandCase(t, "Trailer"), pre, "X-Sum"}
	}
	if k >= 12 && rapid.IntRange(0, 3).Draw(t, "pair") == 0 {
		p := rapid.SampledFrom(realPairs).Draw(t, "pair")
		return Hdr{RandCase(t, p[0]), pre, p[1]}
	}
	return Hdr{NameGen.Draw(t, "name"), pre, ValueGen.Draw(t, "value")}
}

func (o GenOpts) body(t *rapid.T, r *Req) {
	maxBody := o.MaxBody
	if maxBody == 0 {
		maxBody = 60
	}
	k := rapid.IntRange(0, 3).Draw(t, "framing")
	switch {
	case k == 1:
		r.Framing = Length
		r.Body = GenBody(t, maxBody)
		v := strconv.Itoa(len(r.Body))
		if rapid.IntRange(0, 5).Draw(t, "zeros") == 0 {
			v = "00" + v
		}
		r.insert(t, Hdr{RandCase(t, "Content-Length"), rapid.SampledFrom(pres).Draw(t, "pre"), v})
	case k == 2 && !o.NoChunked && r.Proto == "HTTP/1.1":
		r.Framing = Chunked
		r.Body = GenBody(t, maxBody)
		te := rapid.SampledFrom([]string{"chunked", "chunked", "Chunked", "gzip, chunked", "gzip,chunked", "a, b ,chunked"}).Draw(t, "te")
		r.insert(t, Hdr{RandCase(t, "Transfer-Encoding"), rapid.SampledFrom(pres).Draw(t, "pre"), te})
		r.Chunks = GenChunks(t, len(r.Body))
		for range r.Chunks {
			r.Exts = append(r.Exts, rapid.SampledFrom([]string{"", "", "", ";a=b", ";x", "; q=\"z\""}).Draw(t, "ext"))
		}
		if rapid.IntRange(0, 3).Draw(t, "trailer") == 0 {
			r.insert(t, Hdr{RandCase(t, "Trailer"), " ", "X-Sum"})
			n := rapid.IntRange(0, 2).Draw(t, "ntrailers")
			for i := 0; i < n; i++ {
				r.Trailers = append(r.Trailers, Hdr{"X-Sum", " ", "v" + strconv.Itoa(i)})
			}
		}
	}
}

// GenChunks splits n bytes into chunk sizes.
func GenChunks(t *rapid.T, n int) (sizes []int) {
	for n > 0 {
		// more than the default limit of a chunk isn't accepted
		s := NumOr(t, 1, min(n, 128*1024), func() int { return rapid.IntRange(1, min(n, 128*1024)).Draw(t, "chunk") })
		sizes = append(sizes, s)
		n -= s
	}
	return sizes
}

func (r *Req) insert(t *rapid.T, h Hdr) {
	i := rapid.IntRange(0, len(r.Headers)).Draw(t, "at")
	r.Headers = append(r.Headers[:i], append([]Hdr{h}, r.Headers[i:]...)...)
}

// GenCuts generates offsets to split n bytes at: none, everywhere, or some.
func GenCuts(t *rapid.T, n int) (cuts []int) {
	switch rapid.IntRange(0, 4).Draw(t, "cutkind") {
	case 0:
		return nil
	case 1:
		for i := 1; i < n; i++ {
			cuts = append(cuts, i)
		}
		return cuts
	case 2:
		step := rapid.IntRange(2, 9).Draw(t, "step")
		for i := step; i < n; i += step {
			cuts = append(cuts, i)
		}
		return cuts
	}
	k := rapid.IntRange(1, 6).Draw(t, "ncuts")
	set := map[int]bool{}
	for i := 0; i < k && n > 1; i++ {
		set[NumOr(t, 1, n-1, func() int { return rapid.IntRange(1, n-1).Draw(t, "cut") })] = true
	}
	for i := 1; i < n; i++ {
		if set[i] {
			cuts = append(cuts, i)
		}
	}
	return cuts
}
