// C18: query parameters are exactly those encoded by the client.
package c18

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC18(t *testing.T) {
	lib.Run(t, "C18",
		lib.Prop{Name: "direct", Quick: 12000, Fn: direct},
		lib.Prop{Name: "requests", Quick: 8000, Fn: requests},
	)
}

type pair struct {
	k, v string
	flag bool
}

// decode is the reference; ok is false for a malformed query.
func decode(raw string) (pairs []pair, ok bool) {
	if raw == "" {
		return nil, true
	}
	parts := strings.Split(raw, "&")
	if parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1]
	}
	for _, p := range parts {
		k, v, eq := strings.Cut(p, "=")
		if eq && k == "" {
			return nil, false
		}
		if !eq {
			v = "1"
		} else if v, ok = unescape(v); !ok {
			return nil, false
		}
		if k, ok = unescape(k); !ok {
			return nil, false
		}
		pairs = append(pairs, pair{k: k, v: v})
	}
	return pairs, true
}

func unescape(s string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b.WriteByte(' ')
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := strings.IndexByte(digits, lower(s[i+1])), strings.IndexByte(digits, lower(s[i+2]))
			if h < 0 || l < 0 {
				return "", false
			}
			b.WriteByte(byte(h*16 + l))
			i += 2
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), true
}

const digits = "0123456789abcdef"

func lower(c byte) byte {
	if c >= 'A' && c <= 'F' {
		return c + 32
	}
	return c
}

// escape encodes a key or value in one of the ways clients do.
func escape(t *rapid.T, s string) string {
	var b strings.Builder
	how := rapid.IntRange(0, 2).Draw(t, "escaping")
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c > ' ' && c < 0x7f && !strings.ContainsRune("%&=+#", rune(c))
		if c == '=' && how == 2 {
			// is also allowed literally in values, but the caller can't know: keep it escaped
			plain = false
		}
		switch {
		case c == ' ' && rapid.Bool().Draw(t, "plus"):
			b.WriteByte('+')
		case plain && (how == 0 || how == 2 && rapid.Bool().Draw(t, "literal")):
			b.WriteByte(c)
		case rapid.Bool().Draw(t, "upper"):
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func genText(t *rapid.T, label string, min int) string {
	return lib.WordOr(t, func(string) bool { return true }, func() string { return genPlain(t, label, min) })
}

func genPlain(t *rapid.T, label string, min int) string {
	switch rapid.IntRange(0, 3).Draw(t, label+" kind") {
	case 0:
		return string(rapid.SliceOfN(rapid.Byte(), min, 6).Draw(t, label))
	case 1:
		return rapid.SampledFrom([]string{"a&b", "a=b", "&", "=", "+", "%", " ", "a b", "1", "%41", "a+b", "&a=b&", "é", "\x00", "==", "a%20b", "#"}).Draw(t, label)
	}
	s := rapid.StringMatching(`[a-zA-Z0-9_.\[\]-]{0,6}`).Draw(t, label)
	if len(s) < min {
		s = "k"
	}
	return s
}

// genQuery generates a raw query and what it means.
func genQuery(t *rapid.T) (raw string, pairs []pair, ok bool) {
	if rapid.IntRange(0, 4).Draw(t, "shape") == 0 {
		raw = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "=", "&", "&&", "%", "%2", "%26", "%3d", "%zz", "+", "a=b", "c=", "%4", "1", "x%20y", "?", "/"}), 0, 8).Draw(t, "pieces"), "")
		pairs, ok = decode(raw)
		return raw, pairs, ok
	}
	n := rapid.IntRange(0, 8).Draw(t, "n")
	if rapid.IntRange(0, 49).Draw(t, "many") == 49 {
		n = lib.NumOr(t, 1, 60, func() int { return rapid.IntRange(9, 60).Draw(t, "how many") })
	}
	var parts []string
	for i := 0; i < n; i++ {
		p := pair{k: genText(t, "key", 1)}
		if p.flag = rapid.IntRange(0, 4).Draw(t, "flag") == 0; p.flag {
			p.v = "1"
			parts = append(parts, escape(t, p.k))
		} else {
			p.v = genText(t, "value", 0)
			if rapid.IntRange(0, 99).Draw(t, "long") == 99 {
				p.v += lib.Noise(t, lib.NumOr(t, 1, 3000, func() int { return rapid.SampledFrom([]int{50, 127, 128, 255, 256, 1000}).Draw(t, "length") }))
			} else if rapid.IntRange(0, 99).Draw(t, "wordy") == 99 {
				p.v += strings.Repeat("some words %+", rapid.IntRange(1, 150).Draw(t, "words"))
			} else if rapid.IntRange(0, 99).Draw(t, "long key") == 99 {
				p.k += strings.Repeat("a long key+", rapid.IntRange(1, 60).Draw(t, "words"))
			}
			parts = append(parts, escape(t, p.k)+"="+escape(t, p.v))
		}
		pairs = append(pairs, p)
	}
	return strings.Join(parts, "&"), pairs, true
}

func show(pairs []pair) string {
	var b strings.Builder
	for _, p := range pairs {
		fmt.Fprintf(&b, "%q=%q ", p.k, p.v)
	}
	return b.String()
}

// fold is coarser than any comparison of keys.
func fold(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] |= 0x20
	}
	return string(b)
}

// access performs some accesses in some order and judges each.
func access(t *rapid.T, q *query.Query, raw string, pairs []pair, ok bool) error {
	keys := []string{"never-sent"}
	groups := map[string][]pair{}
	for _, p := range pairs {
		groups[fold(p.k)] = append(groups[fold(p.k)], p)
	}
	for _, p := range pairs {
		same := true
		for _, o := range groups[fold(p.k)] {
			same = same && o.k == p.k
		}
		if same {
			keys = append(keys, p.k)
		}
	}
	n := rapid.IntRange(1, 5).Draw(t, "accesses")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 2).Draw(t, "access") {
		case 0:
			if got := q.Raw(); string(got) != raw {
				return fmt.Errorf("access %d: Raw is %q", i, got)
			}
		case 1:
			params, err := q.Unwrap()
			if !ok {
				if err == nil {
					return fmt.Errorf("access %d: Unwrap of a malformed query isn't an error", i)
				}
				if params != nil {
					return fmt.Errorf("access %d: Unwrap of a malformed query returns parameters", i)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("access %d: Unwrap: %v", i, err)
			}
			var got []pair
			for _, p := range params.Unwrap() {
				got = append(got, pair{k: p.Key, v: p.Value})
			}
			if show(got) != show(pairs) {
				return fmt.Errorf("access %d: Unwrap is %s instead of %s", i, show(got), show(pairs))
			}
		case 2:
			key := rapid.SampledFrom(keys).Draw(t, "lookup")
			v, err := q.Get(key)
			if !ok {
				if err == nil || errors.Is(err, query.ErrNoSuchKey) || v != "" {
					return fmt.Errorf("access %d: Get(%q) of a malformed query: %q, %v", i, key, v, err)
				}
				continue
			}
			if g := groups[fold(key)]; len(g) == 0 {
				if !errors.Is(err, query.ErrNoSuchKey) {
					return fmt.Errorf("access %d: Get(%q): %q, %v", i, key, v, err)
				}
			} else if err != nil || v != g[0].v {
				return fmt.Errorf("access %d: Get(%q): %q, %v instead of %q", i, key, v, err, g[0].v)
			}
		}
	}
	return nil
}

func direct(t *rapid.T, c *lib.Case) {
	q := query.New(headers.NewPrealloc(rapid.IntRange(0, 5).Draw(t, "prealloc")))
	rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
	key, n := "", 0
	for i := 0; i < rounds; i++ {
		raw, pairs, ok := genQuery(t)
		c.Logf("query %q: %s (valid: %v)", raw, show(pairs), ok)
		key += raw + " "
		n += len(pairs)
		mem := []byte(raw)
		q.Set(mem)
		if err := access(t, q, raw, pairs, ok); err != nil {
			c.Failf(t, "query %q: %v", raw, err)
		}
		if !bytes.Equal(mem, []byte(raw)) {
			c.Failf(t, "the raw query %q is changed to %q", raw, mem)
		}
	}
	if n > 0 {
		c.NonTrivial(key)
	}
}

func requests(t *rapid.T, c *lib.Case) {
	n := rapid.IntRange(1, 3).Draw(t, "requests")
	type exp struct {
		raw   string
		pairs []pair
		ok    bool
	}
	var exps []exp
	var data []byte
	total := 0
	for i := 0; i < n; i++ {
		raw, pairs, ok := genQuery(t)
		mark := "?"
		if raw == "" && rapid.Bool().Draw(t, "no mark") {
			mark = ""
		}
		exps = append(exps, exp{raw, pairs, ok})
		total += len(pairs)
		data = append(data, "GET /p"+mark+raw+" HTTP/1.1\r\nHost: x\r\n\r\n"...)
	}
	cuts := lib.GenCuts(t, len(data))
	c.Logf("%s cut at %v", lib.Q(data), cuts)
	if total > 0 {
		c.NonTrivial(string(data), fmt.Sprint(cuts))
	}
	i := 0
	var failure error
	r := &lib.Recorder{Respond: func(_ int, req *http.Request, v lib.View) *http.Response {
		if i < len(exps) && failure == nil {
			e := exps[i]
			if v.RawQuery != e.raw {
				failure = fmt.Errorf("request %d: the raw query is %q instead of %q", i, v.RawQuery, e.raw)
			} else if err := access(t, req.Query, e.raw, e.pairs, e.ok); err != nil {
				failure = fmt.Errorf("request %d: %v", i, err)
			}
		}
		i++
		return http.Respond(req)
	}}
	conn := lib.NewConn(lib.Split(data, cuts))
	if p := lib.Serve(config.Default(), conn, encryption.Plain, r); p != "" {
		c.Failf(t, "%s", p)
	}
	if failure != nil {
		c.Failf(t, "%v", failure)
	}
	if i != n {
		c.Failf(t, "%d of %d requests handled", i, n)
	}
}
