// C07: request boundaries are unambiguous, no request smuggling.
package c07

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC07(t *testing.T) {
	lib.Run(t, "C07",
		lib.Prop{Name: "framing", Quick: 12000, Fn: framing},
		lib.Prop{Name: "streams", Quick: 6000, Fn: streams},
	)
}

// frame is what the framing rules say about a request head.
type frame struct {
	refuse  bool // must be refused
	either  bool // may be refused or framed as below
	chunked bool
	length  int
	why     string
}

// rules is the reference: RFC 9112 section 6, strict. Only SP and HTAB may surround values.
func rules(proto string, hdrs []lib.Hdr) (f frame) {
	var lens []string
	var toks []string
	hasTE := false
	for _, h := range hdrs {
		for i := 0; i < len(h.Name); i++ {
			if h.Name[i] <= ' ' || h.Name[i] == 0x7f {
				f.refuse, f.why = true, "bad header name"
				return f
			}
		}
		if h.Name == "" {
			f.refuse, f.why = true, "empty header name"
			return f
		}
		switch strings.ToLower(h.Name) {
		case "content-length":
			lens = append(lens, strings.Trim(h.Value, " \t"))
			if strings.Contains(h.Pre+h.Value, "\t") {
				f.either = true
			}
		case "transfer-encoding":
			for _, tok := range strings.Split(h.Value, ",") {
				if tok = strings.Trim(tok, " \t"); tok != "" {
					toks = append(toks, strings.ToLower(tok))
				}
			}
			hasTE = hasTE || len(toks) > 0
		}
	}
	for i, l := range lens {
		n, err := strconv.ParseUint(l, 10, 64)
		if err != nil || l[0] == '+' || n > math.MaxInt64 {
			f.refuse, f.why = true, fmt.Sprintf("content length %q", l)
			return f
		}
		if n > math.MaxInt64/16 {
			f.either = true
		}
		if i > 0 {
			if int(n) != f.length {
				f.refuse, f.why = true, "conflicting content lengths"
				return f
			}
			f.either = true // repeating the same value may be refused
		}
		f.length = int(n)
	}
	if hasTE {
		for i, tok := range toks {
			if (tok == "chunked") != (i == len(toks)-1) {
				f.refuse, f.why = true, fmt.Sprintf("transfer codings %q", toks)
				return f
			}
		}
		f.chunked = true
		if len(lens) > 0 || proto == "HTTP/1.0" {
			f.either = true
		}
		if len(toks) > 15 {
			f.either = true
		}
	}
	return f
}

var lengthValues = []string{"0", "5", "5", "7", "05", "5 ", " 5", "+5", "-5", "5,5", "5, 5", "5,7", "5 5", "0 5", "00 7", "0 0", "0\t5", "5 0", "0x5", "5a", "a5", "", " ", "5\t", "\t5", "5;", "5.0", "5\r",
	"18446744073709551621", "9223372036854775812", "4294967301", "99999999999999999999999", "5\x00", "\"5\"", "５", "5e0", "5:", ":", "1:", ":5", "5/", "/", "/5", "1;", "1<", "5?", "5O", "O", "5P", "-0", "+0", "0:", "1_0", "1,", ",5", "5\x7f", "\x7f5", "5\xb9", "\xb5", "05:", "00000000000000000000000000005", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775806", "18446744073709551615", "18446744073709551616", "92233720368547758075"}

var teValues = []string{"chunked", "chunked", "Chunked", "CHUNKED", " chunked", "chunked ", "gzip, chunked", "gzip,chunked", "chunked, chunked", "chunked,chunked", "chunked, gzip",
	"gzip", "identity", "chunked, identity", "xchunked", "chunkedx", "chunke", "chunked;q=1", "\"chunked\"", "\x0bchunked", "chunked\x0b", "chunked\x0c", "chunked\r", ",chunked", "chunked,", ", ,", "",
	"\tchunked", "chunked\t", "gzip chunked", "chunked\x00", "\xa0chunked", "chunked\x85", "identity, chunked", "c hunked", "chu\tnked"}

func genHdr(t *rapid.T) lib.Hdr {
	pre := rapid.SampledFrom([]string{" ", " ", "", "  "}).Draw(t, "pre")
	switch rapid.IntRange(0, 5).Draw(t, "hdr") {
	case 0, 1:
		name := rapid.SampledFrom([]string{"Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"}).Draw(t, "name")
		return lib.Hdr{Name: name, Pre: pre, Value: rapid.SampledFrom(lengthValues).Draw(t, "len")}
	case 2, 3:
		name := rapid.SampledFrom([]string{"Transfer-Encoding", "transfer-encoding", "TRANSFER-ENCODING"}).Draw(t, "name")
		return lib.Hdr{Name: name, Pre: pre, Value: rapid.SampledFrom(teValues).Draw(t, "te")}
	case 4:
		name := rapid.SampledFrom([]string{"Content-Length ", "Transfer-Encoding ", " Content-Length", " Transfer-Encoding", "Content-Length\t", "Transfer-Encoding\x00",
			"Content_Length", "Transfer_Encoding", "Content-Lengt", "Content-Lengthy", "X-Content-Length", "Content\rLength", "Transfer\rEncoding", "Transfer-Encodin\x47", "Content-Length\x01", "Content-Length\x0b", "Content-Length\x0c", "Transfer-Encoding\x0b", "Transfer-Encoding\x1f", "Content-Length\x7f", "\x0bContent-Length", "Transfer-Encoding\x7f", "Te"}).Draw(t, "oddname")
		return lib.Hdr{Name: name, Pre: pre, Value: rapid.SampledFrom([]string{"5", "chunked"}).Draw(t, "v")}
	}
	return lib.Hdr{Name: "X-A", Pre: pre, Value: rapid.SampledFrom([]string{"b", "", "Content-Length: 5", "5"}).Draw(t, "v")}
}

// framing sends one request with arbitrary framing headers, a body matching what the rules say,
// and another request behind it.
func framing(t *rapid.T, c *lib.Case) {
	n := rapid.IntRange(0, 4).Draw(t, "nhdrs")
	r := &lib.Req{Method: rapid.SampledFrom([]string{"POST", "GET", "PUT", "HEAD"}).Draw(t, "method"), Path: "/first", RawPath: "/first", Proto: "HTTP/1.1", EOL: "\r\n"}
	if rapid.IntRange(0, 9).Draw(t, "lf") == 0 {
		r.EOL = "\n"
	}
	for i := 0; i < n; i++ {
		r.Headers = append(r.Headers, genHdr(t))
	}
	if r.EOL == "\n" {
		// a value ending with CR would make the line end with a regular CRLF
		for i := range r.Headers {
			r.Headers[i].Value = strings.TrimSuffix(r.Headers[i].Value, "\r")
		}
	}
	f := rules(r.Proto, r.Headers)
	body := "hello"
	if rapid.Bool().Draw(t, "tricky") {
		body = "GET /smuggled HTTP/1.1\r\n\r\n"
	}
	var wire string
	switch {
	case f.refuse:
		// whatever a lenient parser might take for a body
		wire = rapid.SampledFrom([]string{"hello", "5\r\nhello\r\n0\r\n\r\n", "", "0\r\n\r\n"}).Draw(t, "bait")
	case f.chunked:
		r.Body, r.Chunks = []byte(body), lib.GenChunks(t, len(body))
		r.Framing = lib.Chunked
		wire = string(r.BodyWire())
	default:
		if f.length > 1000 {
			f.length = math.MaxInt
			wire = ""
		} else {
			r.Body = []byte((body + strings.Repeat("x", 40))[:f.length])
			wire = string(r.Body)
		}
	}
	head := string(r.Head())
	huge := !f.refuse && !f.chunked && f.length == math.MaxInt
	data := []byte(head + wire + "GET /second HTTP/1.1\r\n\r\n")
	c.Logf("%s\nthe rules say %+v", lib.Q(data), f)
	how := rapid.IntRange(-1, 4).Draw(t, "how")
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data))))
	got := lib.Observe(config.Default(), conn, func(int) int { return how })
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	for _, v := range got.Views {
		if v.Path != "/first" && v.Path != "/second" {
			c.Failf(t, "bytes which aren't a request were served as %s %q", v.Method, v.Path)
		}
	}
	refused := len(got.Views) == 0
	if refused {
		finals, _, err := lib.ParseAll(got.Out, []bool{r.Method == "HEAD"})
		if err != nil || len(finals) != 1 || finals[0].Code/100 != 4 && finals[0].Code != 501 {
			c.Failf(t, "the refused request isn't answered by exactly one 4xx: %v %s", err, lib.Q(got.Out))
		}
	}
	switch {
	case f.refuse && !refused:
		c.Failf(t, "%s must be refused, but the request was served (content length %d, chunked %v, then %d more requests)",
			f.why, got.Views[0].ContentLength, got.Views[0].Chunked, len(got.Views)-1)
	case f.refuse:
		c.Class("refused")
	case f.either && refused:
		c.Class("refused by choice")
	case refused:
		c.Failf(t, "a request with unambiguous framing was refused: %q", got.Errors)
	case huge:
		if len(got.Views) != 1 {
			c.Failf(t, "a request was served inside of a body of an enormous length")
		}
		c.Class("huge")
	default:
		if len(got.Views) != 2 || got.Views[0].Path != "/first" || got.Views[1].Path != "/second" {
			c.Failf(t, "served %d requests instead of /first and /second; errors %q", len(got.Views), got.Errors)
		}
		if how >= 0 && got.Views[0].Body != string(r.Body) {
			c.Failf(t, "body is %q instead of %q", got.Views[0].Body, r.Body)
		}
		if got.Views[1].Method != "GET" || got.Views[1].Body != "" {
			c.Failf(t, "the second request is %+v", got.Views[1])
		}
		c.Class("framed")
	}
	if n > 0 {
		c.NonTrivial(string(data), how)
	}
}

// streams: valid requests with bodies looking like requests and chunks; the boundaries must be found
// whatever part of the bodies the handlers read.
func streams(t *rapid.T, c *lib.Case) {
	n := lib.NumOr(t, 2, 20, func() int { return rapid.IntRange(2, 5).Draw(t, "nreqs") })
	var data []byte
	var reqs []*lib.Req
	for i := 0; i < n; i++ {
		r := lib.GenReq(t, lib.GenOpts{Conn: []string{"keep-alive"}, Protos: []string{"HTTP/1.1"}, NoUpgrade: true, MaxHeaders: 2})
		reqs = append(reqs, r)
		data = append(data, r.Bytes()...)
	}
	hows := rapid.SliceOfN(rapid.IntRange(-1, 4), n, n).Draw(t, "hows")
	c.Logf("%s read by %v", lib.Q(data), hows)
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 7, 64, 4096}).Draw(t, "readbuf")
	got := lib.Observe(cfg, lib.NewConn(lib.Split(data, lib.GenCuts(t, len(data)))), func(i int) int { return hows[i%n] })
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	for i, r := range reqs {
		if i >= len(got.Views) {
			c.Failf(t, "%d requests were served instead of %d; errors %q", len(got.Views), n, got.Errors)
		}
		want := r.View()
		if hows[i] < 0 {
			want.Body = ""
		}
		if d := want.Diff(got.Views[i]); d != "" {
			c.Failf(t, "request %d: sent versus served: %s", i, d)
		}
	}
	if len(got.Views) != n {
		c.Failf(t, "%d requests were served instead of %d", len(got.Views), n)
	}
	c.NonTrivial(string(data), hows)
}
