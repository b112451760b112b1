// C16: virtual hosts receive exactly their own requests.
package c16

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/virtual"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC16(t *testing.T) {
	lib.Run(t, "C16",
		lib.Prop{Name: "hosts", Quick: 10000, Fn: hosts},
	)
}

// named is a router answering with its name.
type named struct {
	name  string
	inits int
	seen  []string
	errs  []string
	ended int
}

func (n *named) Initialize() router.Router { n.inits++; return n }

func (n *named) OnRequest(req *http.Request) *http.Response {
	n.seen = append(n.seen, strings.Clone(req.Path))
	return http.String(req, n.name)
}

func (n *named) OnError(req *http.Request, err error) *http.Response {
	if err == status.ErrCloseConnection {
		n.ended++
		return http.Error(req, err)
	}
	n.errs = append(n.errs, err.Error())
	return http.Code(req, status.Teapot).String("error of " + n.name)
}

// host is a canonical host: lower-case, without www. and default ports.
type host struct{ name, port string }

var domains = []string{"example.com", "example.org", "a.example.com", "localhost", "pavlo.gay", "a", "wwwx.com", "ww.com", "1.2.3.4", "1.2.3.40", "x80", "x.80", "com", "api-1.test", "www", "xwww.com", "a-rather-long-subdomain.of.some.example.com", "another-rather-long-subdomain.of.some.example.com", strings.Repeat("l", 63) + ".net", strings.Repeat("deep.", 40) + "org"}

var ports = []string{"", "", "", "8080", "8", "800", "4430", "44", "180", "1443", "0"}

func genHost(t *rapid.T, domains []string) host {
	return host{rapid.SampledFrom(domains).Draw(t, "domain"), rapid.SampledFrom(ports).Draw(t, "port")}
}

// alike replaces a single character of the name.
func alike(t *rapid.T, name string) string {
	b := []byte(name)
	if i := rapid.IntRange(0, len(b)-1).Draw(t, "at"); b[i] != '.' {
		b[i] = rapid.SampledFrom([]byte("qz5")).Draw(t, "char")
	}
	return string(b)
}

// spell writes the host in one of the equivalent ways.
func (h host) spell(t *rapid.T) string {
	s := h.name
	if h.name != "www" && rapid.IntRange(0, 2).Draw(t, "www") == 0 {
		s = "www." + s
	}
	s = lib.RandCase(t, s)
	if h.port != "" {
		return s + ":" + h.port
	}
	return s + rapid.SampledFrom([]string{"", "", ":80", ":443"}).Draw(t, "default port")
}

func hosts(t *rapid.T, c *lib.Case) {
	v := virtual.New()
	routers := map[host]*named{}
	domains := domains
	for i := 0; i < 3 && lib.Hit(t); i++ {
		// names out of the dictionary
		s := strings.Trim(strings.ToLower(lib.Word(t)), ".")
		if lib.Only(s, "abcdefghijklmnopqrstuvwxyz0123456789-.") && !strings.HasPrefix(s, "www.") && s != "0.0.0.0" {
			domains = append(domains[:len(domains):len(domains)], s, "sub."+s)
		}
	}
	var def *named
	n := rapid.IntRange(0, 6).Draw(t, "hosts")
	if rapid.IntRange(0, 19).Draw(t, "many") == 19 {
		n = rapid.IntRange(7, 60).Draw(t, "many hosts")
	}
	for i := 0; i < n; i++ {
		h := genHost(t, domains)
		if routers[h] != nil {
			continue
		}
		s := h.spell(t)
		r := &named{name: fmt.Sprintf("router %d", i)}
		routers[h] = r
		c.Logf("Host(%q): %s", s, r.name)
		if v.Host(s, r) != v {
			c.Failf(t, "Host returns another router")
		}
		if i == n/2 {
			switch rapid.IntRange(0, 3).Draw(t, "default") {
			case 0:
				def = &named{name: "default"}
				c.Logf("Default")
				v.Default(def)
			case 1:
				def = &named{name: "default"}
				s := rapid.SampledFrom([]string{"0.0.0.0", "0.0.0.0:80", "0.0.0.0:8080", "0.0.0.0:443"}).Draw(t, "any")
				c.Logf("Host(%q): default", s)
				v.Host(s, def)
			}
		}
	}
	rt := v.Initialize()

	known := make([]host, 0, len(routers))
	for _, d := range domains {
		for _, p := range ports {
			if h := (host{d, p}); routers[h] != nil {
				known = append(known, h)
			}
		}
	}
	k := rapid.IntRange(1, 4).Draw(t, "requests")
	var data []byte
	var want []string
	for i := 0; i < k; i++ {
		data = append(data, fmt.Sprintf("GET /%d HTTP/1.1\r\nX-Host: example.com\r\n", i)...)
		nh := rapid.SampledFrom([]int{1, 1, 1, 1, 1, 0, 2, 3}).Draw(t, "nhosts")
		var last host
		for j := 0; j < nh; j++ {
			if len(known) > 0 && rapid.IntRange(0, 2).Draw(t, "known") > 0 {
				last = rapid.SampledFrom(known).Draw(t, "host")
				if rapid.IntRange(0, 4).Draw(t, "alike") == 0 {
					last.name = alike(t, last.name)
				}
			} else {
				last = genHost(t, domains)
			}
			data = append(data, lib.RandCase(t, "Host")+": "+last.spell(t)+"\r\n"...)
		}
		data = append(data, "\r\n"...)
		w := "421"
		switch {
		case nh > 1:
			w = "400"
		case nh == 1 && routers[last] != nil:
			w = routers[last].name
		case def != nil:
			w = "default"
		case nh == 0:
			w = "400"
		}
		want = append(want, w)
	}
	// a malformed request at the end: its errors belong to the router of its host
	culprit := "" // its host is unknown by then, or there is no router for it
	bad := rapid.IntRange(0, 2).Draw(t, "malformed request") == 0
	if bad {
		data = append(data, "GET /bad HTTP/1.1\r\n"...)
		if def != nil {
			culprit = "default"
		}
		if rapid.IntRange(0, 3).Draw(t, "names a host") > 0 {
			h := genHost(t, domains)
			if len(known) > 0 && rapid.IntRange(0, 2).Draw(t, "known") > 0 {
				h = rapid.SampledFrom(known).Draw(t, "host")
			}
			data = append(data, "Host: "+h.spell(t)+"\r\n"...)
			if routers[h] != nil {
				culprit = routers[h].name
			}
		}
		data = append(data, rapid.SampledFrom([]string{"Content-Length: x\r\n\r\n", "Content-Length: 5x\r\n\r\n", "Content-Length: -1\r\n\r\n",
			strings.Repeat("X: y\r\n", 60) + "\r\n", "X: " + strings.Repeat("y", 100_000) + "\r\n\r\n", strings.Repeat("X", 100_000) + ": y\r\n\r\n", "Transfer-Encoding: chunked, gzip\r\n\r\n",
			"Transfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n\r\n", ": nameless\r\n\r\n", "Content-Length: 5\r\nContent-Length: 6\r\n\r\n"}).Draw(t, "malformed")...)
	}
	c.Logf("%s", lib.Q(data))
	if len(routers) >= 2 {
		c.NonTrivial(string(data), fmt.Sprint(known), def != nil)
	}
	conn := lib.NewConn([][]byte{data})
	if p := lib.Serve(config.Default(), conn, encryption.Plain, lib.Quiet{Router: rt}); p != "" {
		c.Failf(t, "%s", p)
	}
	resps, _, err := lib.ParseAll(conn.Out, nil)
	if bad && err == nil && len(resps) == len(want)+1 {
		got := resps[len(want)]
		resps = resps[:len(want)]
		if culprit == "" && got.Code < 400 {
			c.Failf(t, "a malformed request without a router is answered with %d", got.Code)
		}
		if culprit != "" && (got.Code != 418 || string(got.Body) != "error of "+culprit) {
			c.Failf(t, "an error of the host of %q is answered with %d %q", culprit, got.Code, got.Body)
		}
	} else if bad && culprit != "" {
		c.Failf(t, "%d responses for %d requests and a malformed one: %s (%v)", len(resps), len(want), lib.Q(conn.Out), err)
	}
	if err != nil || len(resps) != len(want) {
		c.Failf(t, "%d responses for %d requests: %s (%v)", len(resps), len(want), lib.Q(conn.Out), err)
	}
	for i, r := range resps {
		got := string(r.Body)
		if r.Code != 200 {
			got = fmt.Sprint(r.Code)
		}
		if got != want[i] {
			c.Failf(t, "request %d is answered by %q instead of %q", i, got, want[i])
		}
	}
	// and the routers saw nothing else
	for _, r := range append(mapValues(routers), def) {
		if r == nil {
			continue
		}
		if r.inits != 1 {
			c.Failf(t, "%s is initialized %d times", r.name, r.inits)
		}
		var exp []string
		for i, w := range want {
			if w == r.name {
				exp = append(exp, fmt.Sprintf("/%d", i))
			}
		}
		if errs := len(r.errs); bad && errs > 0 && r.name != culprit || errs > 1 || !bad && errs > 0 {
			c.Failf(t, "%s was given the errors %q", r.name, r.errs)
		}
		if fmt.Sprint(exp) != fmt.Sprint(r.seen) {
			c.Failf(t, "%s saw %v instead of %v", r.name, r.seen, exp)
		}
	}
}

func mapValues(m map[host]*named) (out []*named) {
	for _, v := range m {
		out = append(out, v)
	}
	return out
}
