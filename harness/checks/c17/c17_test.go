// C17: percent-decoding of paths is exact and rejects bad escapes.
package c17

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/uridecode"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC17(t *testing.T) {
	lib.RunMore(t, "C17", enumerate,
		lib.Prop{Name: "round-trip", Quick: 12000, Fn: roundTrip},
		lib.Prop{Name: "arbitrary", Quick: 12000, Fn: arbitrary},
		lib.Prop{Name: "request paths", Quick: 5000, Fn: requestPaths},
		lib.Prop{Name: "long", Quick: 60, Fn: long},
	)
}

// decode is the reference: nil if an escape is incomplete or not hexadecimal.
func decode(s []byte) []byte {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) {
			return nil
		}
		h, l := hex(s[i+1]), hex(s[i+2])
		if h < 0 || l < 0 {
			return nil
		}
		out = append(out, byte(h*16+l))
		i += 2
	}
	return out
}

func hex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func judge(src []byte, capacity int) error {
	want := decode(src)
	in := bytes.Clone(src)
	got, err := uridecode.Decode(in, make([]byte, 0, capacity))
	if want == nil {
		if err == nil {
			return fmt.Errorf("%q is decoded to %q though it has a bad escape", src, got)
		}
		var he status.HTTPError
		if !errors.As(err, &he) || he.Code != status.BadRequest {
			return fmt.Errorf("%q: the error isn't a bad request: %v", src, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q is refused: %v", src, err)
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%q is decoded to %q instead of %q", src, got, want)
	}
	return nil
}

// encode escapes some bytes of s.
func encode(t *rapid.T, s []byte) (out []byte, escapes int) {
	how := rapid.IntRange(0, 3).Draw(t, "how")
	for _, c := range s {
		lit := c != '%'
		switch how {
		case 0: // as little as possible
		case 1:
			lit = false
		default:
			lit = lit && rapid.Bool().Draw(t, "literal")
		}
		if lit {
			out = append(out, c)
			continue
		}
		escapes++
		const lower, upper = "0123456789abcdef", "0123456789ABCDEF"
		out = append(out, '%')
		for _, d := range []byte{c >> 4, c & 15} {
			if rapid.Bool().Draw(t, "upper") {
				out = append(out, upper[d])
			} else {
				out = append(out, lower[d])
			}
		}
	}
	return out, escapes
}

var capacities = []int{0, 0, 1, 3, 16, 4096}

func roundTrip(t *rapid.T, c *lib.Case) {
	orig := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	src, n := encode(t, orig)
	capacity := rapid.SampledFrom(capacities).Draw(t, "capacity")
	c.Logf("bytes %q encoded as %q, buffer of %d", orig, src, capacity)
	if n > 0 {
		c.NonTrivial(string(src), capacity)
	}
	got, err := uridecode.Decode(src, make([]byte, 0, capacity))
	if err != nil {
		c.Failf(t, "refused: %v", err)
	}
	if !bytes.Equal(got, orig) {
		c.Failf(t, "decoded to %q", got)
	}
}

var pieces = []string{"%", "%%", "%2", "%2f", "%zz", "%0g", "%g0", "% 1", "%1 ", "%+1", "%-1", "%0x", "%25", "%2525", "%\x00", "%\xff\xff", "%4", "/", "a", "1", "f", "F", "G", "%40", "%30", "%66", "%c3%a9", "é", "+", "?", "#", "%u0041", "0", "41"}

func arbitrary(t *rapid.T, c *lib.Case) {
	var src []byte
	n := rapid.IntRange(0, 10).Draw(t, "n")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
			src = append(src, rapid.Byte().Draw(t, "b"))
		} else {
			src = append(src, lib.WordOr(t, func(string) bool { return true }, func() string { return rapid.SampledFrom(pieces).Draw(t, "piece") })...)
		}
	}
	capacity := rapid.SampledFrom(capacities).Draw(t, "capacity")
	c.Logf("%q, buffer of %d", src, capacity)
	if bytes.IndexByte(src, '%') != -1 {
		c.NonTrivial(string(src), capacity)
	}
	if err := judge(src, capacity); err != nil {
		c.Failf(t, "%v", err)
	}
}

func long(t *rapid.T, c *lib.Case) {
	n := rapid.IntRange(1000, 20000).Draw(t, "n")
	every := rapid.IntRange(1, 50).Draw(t, "every")
	bad := rapid.IntRange(-1, n-1).Draw(t, "bad")
	x := rapid.Uint32().Draw(t, "seed")
	any := rapid.Bool().Draw(t, "any literal")
	var src []byte
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		switch {
		case i == bad:
			src = append(src, "%4q"...)
		case i%every == 0:
			src = append(src, fmt.Sprintf("%%%02x", byte(x>>24))...)
		default:
			if l := byte(x >> 24); any && l != '%' {
				src = append(src, l)
			} else {
				src = append(src, 'a'+l%26)
			}
		}
	}
	c.Logf("%d units, escape every %d, bad %d, seed %d, any bytes %v", n, every, bad, x, any)
	c.NonTrivial(n, every, bad, x)
	if err := judge(src, rapid.SampledFrom(capacities).Draw(t, "capacity")); err != nil {
		c.Failf(t, "%v", lib.Q([]byte(err.Error())))
	}
}

// requestPaths checks what a handler observes.
func requestPaths(t *rapid.T, c *lib.Case) {
	var raw string
	if rapid.Bool().Draw(t, "valid") {
		_, raw = lib.GenPath(t)
	} else {
		raw = "/"
		n := rapid.IntRange(1, 6).Draw(t, "n")
		for i := 0; i < n; i++ {
			p := rapid.SampledFrom(pieces).Draw(t, "piece")
			if bytes.ContainsAny([]byte(p), "? \x00\xff#") {
				continue
			}
			raw += p
		}
	}
	query := rapid.SampledFrom([]string{"", "?", "?a=b", "?%zz", "?%2"}).Draw(t, "query")
	data := []byte("GET " + raw + query + " HTTP/1.1\r\n\r\n")
	cuts := lib.GenCuts(t, len(data))
	c.Logf("%s cut at %v", lib.Q(data), cuts)
	want := decode([]byte(raw))
	if bytes.IndexByte([]byte(raw), '%') != -1 {
		c.NonTrivial(raw, query, fmt.Sprint(cuts))
	}
	conn := lib.NewConn(lib.Split(data, cuts))
	r := &lib.Recorder{}
	if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
		c.Failf(t, "%s", p)
	}
	if want == nil {
		if len(r.Views) != 0 {
			c.Failf(t, "the handler got the path %q though the target has a bad escape", r.Views[0].Path)
		}
		resps, _, err := lib.ParseAll(conn.Out, nil)
		if err != nil || len(resps) != 1 || resps[0].Code != 400 {
			c.Failf(t, "not answered by 400: %s (%v)", lib.Q(conn.Out), err)
		}
		return
	}
	if len(r.Views) != 1 {
		c.Failf(t, "%d requests handled, output %s", len(r.Views), lib.Q(conn.Out))
	}
	if r.Views[0].Path != string(want) {
		c.Failf(t, "the handler got the path %q instead of %q", r.Views[0].Path, want)
	}
}

func enumerate(t *testing.T) {
	lib.Enumerate(t, "all escapes", func(check func(c *lib.Case, f func() error)) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				for _, around := range [][2]string{{"", ""}, {"x", "y"}} {
					c := &lib.Case{}
					src := []byte(around[0] + "%" + string([]byte{byte(a), byte(b)}) + around[1])
					c.Logf("%q", src)
					check(c, func() error {
						c.NonTrivial(string(src))
						return judge(src, 8)
					})
				}
			}
		}
		lib.SetExhaustive()
	})
}
