// C02: handlers see exactly the request the client sent.
package c02

import (
	"strconv"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC02(t *testing.T) {
	lib.Run(t, "C02",
		lib.Prop{Name: "requests", Quick: 8000, Fn: func(t *rapid.T, c *lib.Case) { fidelity(t, c, genSmall) }},
		lib.Prop{Name: "big", Quick: 400, Fn: func(t *rapid.T, c *lib.Case) { fidelity(t, c, genBig) }},
		lib.Prop{Name: "specials", Quick: 4000, Fn: func(t *rapid.T, c *lib.Case) { fidelity(t, c, genSpecials) }},
	)
}

func genSmall(t *rapid.T) *lib.Req {
	r := lib.GenReq(t, lib.GenOpts{UpgradeH1: true})
	// the other forms of a target
	target := ""
	switch {
	case r.Method == "CONNECT" && rapid.Bool().Draw(t, "authority"):
		target = rapid.SampledFrom([]string{"example.com:443", "a.b:1", "127.0.0.1:8080", "www.example.com:80"}).Draw(t, "target")
	case r.Method == "OPTIONS" && rapid.Bool().Draw(t, "server-wide"):
		target = "*"
	}
	if target != "" {
		r.Path, r.RawPath, r.HasQuery, r.Query = target, target, false, ""
	}
	return r
}

// genBig generates requests of realistic and large sizes, within the default limits.
func genBig(t *rapid.T) *lib.Req {
	return lib.GenReq(t, lib.GenOpts{MaxHeaders: 3, Big: 1, Most: 50})
}

const tokenChars = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// genSpecials concentrates on the headers the protocol treats specially and on names close to them.
func genSpecials(t *rapid.T) *lib.Req {
	r := lib.GenReq(t, lib.GenOpts{UpgradeH1: true, MaxHeaders: 2})
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		var name string
		if rapid.Bool().Draw(t, "anytoken") {
			l := rapid.SampledFrom([]int{1, 4, 7, 10, 12, 14, 16, 17}).Draw(t, "len")
			b := make([]byte, l)
			for j := range b {
				b[j] = rapid.SampledFrom([]byte(tokenChars)).Draw(t, "c")
			}
			name = string(b)
		} else {
			// one byte away from a special name
			b := []byte(rapid.SampledFrom([]string{"Content-Length", "Content-Type", "Connection", "Upgrade", "Trailer",
				"Content-Encoding", "Transfer-Encoding"}).Draw(t, "special"))
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.SampledFrom([]byte(tokenChars)).Draw(t, "c")
			name = lib.RandCase(t, string(b))
		}
		switch strings.ToLower(name) {
		case "content-length", "content-type", "connection", "upgrade", "trailer", "content-encoding", "transfer-encoding":
			name = "x" + name
		}
		v := rapid.SampledFrom([]string{"5", "close", "h2c", "http/1.1", "chunked", "gzip", "keep-alive", "", "99999999999999999999"}).Draw(t, "v")
		at := rapid.IntRange(0, len(r.Headers)).Draw(t, "at")
		r.Headers = append(r.Headers[:at:at], append([]lib.Hdr{{Name: name, Pre: rapid.SampledFrom([]string{"", " ", "   "}).Draw(t, "pre"), Value: v}}, r.Headers[at:]...)...)
	}
	return r
}

func fidelity(t *rapid.T, c *lib.Case, gen func(*rapid.T) *lib.Req) {
	r := gen(t)
	how := rapid.IntRange(0, 4).Draw(t, "how")
	data := r.Bytes()
	cfg := config.Default()
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{16, 64, 4096, 65536}).Draw(t, "readbuf")
	enc := encryption.Token(rapid.IntRange(0, 3).Draw(t, "enc"))
	c.Logf("request %s\nread by way %d, buffer %d", lib.Q(data), how, cfg.TCP.ReadBufferSize)
	conn := lib.NewConn(lib.Split(data, lib.GenCuts(t, min(len(data), 400))))
	rec := &lib.Recorder{How: func(int) int { return how }}
	if p := lib.Serve(cfg, conn, enc, rec); p != "" {
		c.Failf(t, "serving panicked: %s", p)
	}
	if len(rec.Views) != 1 {
		c.Failf(t, "the handler ran %d times; errors %q, output %s", len(rec.Views), rec.Errors, lib.Q(conn.Out))
	}
	want := r.View()
	want.Encryption = uint8(enc)
	if d := want.Diff(rec.Views[0]); d != "" {
		c.Failf(t, "sent versus observed: %s", d)
	}
	if len(r.Headers) > 0 {
		c.NonTrivial(string(data), how)
	}
	c.Class("framing " + strconv.Itoa(int(r.Framing)))
}
