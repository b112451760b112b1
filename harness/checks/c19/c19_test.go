// C19: request cookies are exactly those sent.
package c19

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC19(t *testing.T) {
	lib.Run(t, "C19",
		lib.Prop{Name: "requests", Quick: 10000, Fn: requests},
		lib.Prop{Name: "parse", Quick: 10000, Fn: parse},
	)
}

type pair struct{ k, v string }

func show(ps []pair) string { return fmt.Sprintf("%q", ps) }

func genCookie(t *rapid.T) pair {
	name := rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_.$!-]{1,10}`),
		rapid.SampledFrom([]string{"a", "A", "session", "__Host-id", "a b", "x-y", "ü"}),
	).Draw(t, "name")
	value := rapid.OneOf(
		rapid.StringMatching(`[!-:<-~]{0,12}`), // anything visible but the semicolon
		rapid.SampledFrom([]string{"", "b", "in black", "a=b", "=", "==", "\"q\"", "a,b", "%20", "x=y=z", "ü"}),
	).Draw(t, "value")
	name = lib.WordOr(t, func(s string) bool { return lib.Printable(s) && !strings.ContainsAny(s, "=;,\"") }, func() string { return name })
	value = lib.WordOr(t, func(s string) bool { return lib.Printable(s) && !strings.Contains(s, ";") }, func() string { return value })
	if rapid.IntRange(0, 99).Draw(t, "long") == 99 {
		value += lib.Noise(t, lib.NumOr(t, 1, 600, func() int { return rapid.SampledFrom([]int{50, 127, 128, 255, 256, 600}).Draw(t, "length") }))
	}
	return pair{name, value}
}

// render writes cookies into one header value.
func render(t *rapid.T, ps []pair) string {
	var parts []string
	for _, p := range ps {
		parts = append(parts, p.k+"="+p.v)
	}
	s := strings.Join(parts, rapid.SampledFrom([]string{"; ", "; ", ";"}).Draw(t, "sep"))
	if len(ps) > 0 {
		s += rapid.SampledFrom([]string{"", "", "", ";", "; "}).Draw(t, "end")
	}
	return s
}

// genHeader generates a Cookie header value, possibly malformed.
func genHeader(t *rapid.T) (value string, ps []pair, ok bool) {
	n := rapid.IntRange(0, 5).Draw(t, "cookies")
	if rapid.IntRange(0, 49).Draw(t, "many") == 49 {
		n = lib.NumOr(t, 1, 40, func() int { return rapid.IntRange(6, 40).Draw(t, "how many") })
	}
	for i := 0; i < n; i++ {
		ps = append(ps, genCookie(t))
	}
	value = render(t, ps)
	if rapid.IntRange(0, 4).Draw(t, "break") != 0 {
		return value, ps, true
	}
	bad := rapid.SampledFrom([]string{"novalue", "=anonymous", "x", "flag;"}).Draw(t, "bad")
	at := rapid.IntRange(0, len(ps)).Draw(t, "at")
	var parts []string
	for i, p := range ps {
		if i == at {
			parts = append(parts, bad)
		}
		parts = append(parts, p.k+"="+p.v)
	}
	if at == len(ps) {
		parts = append(parts, bad)
	}
	return strings.Join(parts, "; "), nil, false
}

func contents(jar cookie.Jar) (got []pair) {
	for _, p := range jar.Unwrap() {
		got = append(got, pair{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	return got
}

func parse(t *rapid.T, c *lib.Case) {
	jar := cookie.NewJarPreAlloc(rapid.IntRange(0, 4).Draw(t, "prealloc"))
	value, ps, ok := genHeader(t)
	c.Logf("%q: %s (valid: %v)", value, show(ps), ok)
	if len(ps) > 0 {
		c.NonTrivial(value)
	}
	err := cookie.Parse(jar, value)
	if ok != (err == nil) {
		c.Failf(t, "the error is %v", err)
	}
	if got := contents(jar); ok && show(got) != show(ps) {
		c.Failf(t, "parsed as %s", show(got))
	}
}

func first(ps []pair, key string) string {
	for _, p := range ps {
		if strings.EqualFold(p.k, key) {
			return p.v
		}
	}
	return ""
}

func requests(t *rapid.T, c *lib.Case) {
	type exp struct {
		ps    []pair
		ok    bool
		calls int
	}
	cfg := config.Default()
	cfg.Headers.ValueSpace.Maximal, cfg.Headers.MaxValueLength = 1<<20, 1<<20
	cfg.Headers.CookiesPreAllocate = rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "prealloc")
	n := rapid.IntRange(1, 3).Draw(t, "requests")
	var exps []exp
	var data []byte
	total := 0
	for i := 0; i < n; i++ {
		e := exp{ok: true, calls: rapid.IntRange(0, 3).Draw(t, "calls")}
		data = append(data, "GET / HTTP/1.1\r\n"...)
		k := rapid.IntRange(0, 3).Draw(t, "headers")
		if rapid.IntRange(0, 19).Draw(t, "many headers") == 19 {
			k = rapid.IntRange(4, 12).Draw(t, "how many headers")
		}
		type header struct {
			value string
			ps    []pair
			ok    bool
		}
		var sent []header
		for j := 0; j < k; j++ {
			var h header
			if j > 0 && rapid.IntRange(0, 4).Draw(t, "again") == 4 {
				h = rapid.SampledFrom(sent).Draw(t, "repeated")
			} else {
				h.value, h.ps, h.ok = genHeader(t)
			}
			sent = append(sent, h)
			value, ps, ok := h.value, h.ps, h.ok
			data = append(data, lib.RandCase(t, "Cookie")+": "+value+"\r\nX-"+fmt.Sprint(j)+": a=b\r\n"...)
			e.ps = append(e.ps, ps...)
			e.ok = e.ok && ok
		}
		data = append(data, "Set-Cookie: not=this\r\n\r\n"...)
		total += len(e.ps)
		exps = append(exps, e)
	}
	cuts := lib.GenCuts(t, len(data))
	c.Logf("%s cut at %v", lib.Q(data), cuts)
	if total > 0 {
		c.NonTrivial(string(data), fmt.Sprint(cuts))
	}
	i := 0
	failure := ""
	r := &lib.Recorder{Respond: func(_ int, req *http.Request, v lib.View) *http.Response {
		if i < n && failure == "" {
			e := exps[i]
			for call := 0; call < e.calls; call++ {
				jar, err := req.Cookies()
				if e.ok != (err == nil) {
					failure = fmt.Sprintf("request %d, call %d: the error is %v", i, call, err)
					break
				}
				if !e.ok {
					continue
				}
				if got := contents(jar); show(got) != show(e.ps) {
					failure = fmt.Sprintf("request %d, call %d: the jar holds %s instead of %s", i, call, show(got), show(e.ps))
					break
				}
				for _, p := range e.ps {
					if got, found := jar.Get(p.k); !found || got != first(e.ps, p.k) {
						failure = fmt.Sprintf("request %d: the cookie %q is %q, %v", i, p.k, got, found)
					}
				}
			}
		}
		i++
		return http.Respond(req)
	}}
	conn := lib.NewConn(lib.Split(data, cuts))
	if p := lib.Serve(cfg, conn, encryption.Plain, r); p != "" {
		c.Failf(t, "%s", p)
	}
	if failure != "" {
		c.Failf(t, "%s", failure)
	}
	if i != n {
		c.Failf(t, "%d of %d requests handled: %s", i, n, lib.Q(conn.Out))
	}
}
