// C14: static serving returns exactly the file under the root, never outside.
package c14

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC14(t *testing.T) {
	base = t.TempDir()
	plant()
	t.Chdir(base) // for relative roots
	lib.RunMore(t, "C14", everyExtension,
		lib.Prop{Name: "paths", Quick: 5000, Fn: paths},
	)
}

var (
	base  string
	files = map[string]string{} // inside of the roots, by path relative to base
)

var names = []string{
	"index.html", "a.txt", ".hidden", "a..b.txt", "..x", "x..", "dir/b.css", "dir/empty", "dir/sub/c.json", "dir.txt/d.js", "sp ace.png",
	"ünï.svg", "per%cent.txt", "quest?ion.txt", "UP.CSS", "static/a.txt", "static/static/b.css", "big.bin", "...", "dir/...", "dir/a.tar.gz", "noext",
	"x..y/z..", "s", "g/s/a.txt", "root/a.txt", "huge.bin", " .. /odd.txt", "..hidden", "dir/ .css", ". ./dots.txt", "backup~", "a.txt~", "#hash#", "dir/.htaccess", ".git/config", "a.bak", ".a.txt.swp", "_under", "-dash", "a+b&c=d;e,f.txt", "~", "~user/x", "%41", "a:b", "$x", "(p)[q]{r}.html", "<x>", "a*", "tab\there", "dir/+x", "x.", "x ", "con", "index.htm", "dir/index.html", "WEB-INF/web.xml", "a.php", "a.go", "a.TXT", "web.config", "\x7f", "caf\u00e9", "e\u0301",
	strings.Repeat("l", 240) + ".txt", strings.Repeat("deep/", 60) + "e.css", strings.Repeat("some.long.directory/", 30) + strings.Repeat("n", 200) + ".js",
}

func plant() {
	// names and sizes out of the dictionary
	sizes := map[string]int{}
	words, nums := lib.Peculiar()
	for _, w := range words {
		for _, n := range []string{w, "a" + w, w + ".txt"} {
			if !strings.ContainsAny(n, "/\x00") && n != "." && n != ".." && !slices.Contains(names, n) && !slices.ContainsFunc(names, func(s string) bool { return strings.HasPrefix(s, n+"/") }) {
				names = append(names, n)
			}
		}
	}
	for _, k := range nums {
		for d := -1; d <= 1 && k < 2_000_000; d++ {
			n := fmt.Sprintf("sized/%d.bin", k+d)
			if !slices.Contains(names, n) && k+d >= 0 {
				names = append(names, n)
				sizes[n] = k + d
			}
		}
	}
	write := func(name, body string) {
		p := filepath.Join(base, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(body), 0o644))
	}
	for _, n := range names {
		body := "inside " + n + "\n"
		switch n {
		case "dir/empty":
			body = ""
		case "big.bin":
			body = strings.Repeat("0123456789", 7000)
		case "huge.bin":
			body = strings.Repeat("0123456789abcdef", 20000) + "end"
		}
		if k, ok := sizes[n]; ok {
			body = strings.Repeat("0123456789abcdef", k/16+1)[:k]
		}
		files["root/"+n] = body
		write("root/"+n, body)
		if len(n)%2 == 1 {
			files["r/"+n] = "short root, " + body
			write("r/"+n, "short root, "+body)
		}
	}
	for _, n := range []string{"secret.txt", "a.txt", "root-evil/secret.txt", "rootx/a.txt", "roota.txt", "dir/b.css", "x", "etc/passwd", "index.html", "static/a.txt"} {
		write(n, "SECRET "+n)
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type mount struct {
	group, prefix string
	root          string
	full          string
	mws           bool
}

var segPool = []string{"..", ".", "", "...", "%2e%2e", "..%2f", "%2e.", "..\\", "..%5c", "a.txt%00", "a.txt\\", "secret.txt", "root-evil", "rootx", "etc", "passwd", "root", "static", "..;", "~", "-evil"}

func encode(t *rapid.T, s string) string {
	mode := rapid.IntRange(0, 3).Draw(t, "encode")
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '/' && mode != 3:
			b.WriteByte('/')
		case s[i] <= ' ' || s[i] >= 0x7f || s[i] == '%' || s[i] == '?' || mode >= 2 || mode == 1 && s[i] == '.':
			fmt.Fprintf(&b, "%%%02x", s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// request is a raw path, and what it decodes to.
type request struct {
	method  string
	raw     string
	decoded string
	plain   string // relative path of the file which must be returned, if any
}

func genRequest(t *rapid.T, m mount) request {
	r := request{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST"}).Draw(t, "method")}
	prefix := m.full
	if prefix == "/" {
		prefix = ""
	}
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0, 1:
		name := rapid.SampledFrom(names).Draw(t, "name")
		r.plain = name
		r.decoded = prefix + "/" + name
		r.raw = encode(t, r.decoded)
		if strings.HasPrefix(r.raw, "%2f") {
			r.raw = "/" + r.raw[3:]
		}
	case 2:
		name := rapid.SampledFrom(names).Draw(t, "name")
		// near misses
		name = rapid.SampledFrom([]string{name + "x", strings.TrimSuffix(name, path.Ext(name)), name + ".gz", name + ".txt", path.Dir(name), name[:len(name)-1], "/" + name, "./" + name, name + "/", name + "/.", "dir/../" + name, "../root/" + name, strings.ToUpper(name), name + " ", "../" + name, "dir//" + name}).Draw(t, "twist")
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			// beyond what a file system allows
			name = strings.TrimRight(name, "x")
			unit := rapid.SampledFrom([]string{"x", "/x", "/.", ".", "/..", "%"}).Draw(t, "unit")
			pad := rapid.SampledFrom([]int{128, 255, 256, 257, 512, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 12288}).Draw(t, "pad")
			name += strings.Repeat(unit, pad/len(unit)+1)[:pad]
		}
		r.decoded = prefix + "/" + name
		r.raw = prefix + "/" + encode(t, name)
	case 3:
		// hostile
		n := rapid.IntRange(1, 7).Draw(t, "nsegs")
		raw := prefix
		for i := 0; i < n; i++ {
			seg := rapid.SampledFrom(segPool).Draw(t, "seg")
			if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
				seg = encode(t, rapid.SampledFrom(names).Draw(t, "name"))
			}
			raw += rapid.SampledFrom([]string{"/", "/", "/", "%2f", "//"}).Draw(t, "sep") + seg
		}
		if !strings.HasPrefix(raw, "/") {
			raw = "/" + raw
		}
		r.raw = raw
	default:
		// siblings of the prefix
		tail := rapid.SampledFrom([]string{"x/a.txt", "a.txt", "", "-evil/secret.txt", "../a.txt", "/", ".", "..", "x"}).Draw(t, "sibling")
		r.raw = m.full + tail
		if m.full == "/" {
			r.raw = "/" + strings.TrimPrefix(tail, "/")
		}
	}
	return r
}

func decode(raw string) string {
	var b strings.Builder
	for i := 0; i < len(raw); i++ {
		if raw[i] == '%' && i+2 < len(raw) {
			var c byte
			fmt.Sscanf(raw[i+1:i+3], "%02x", &c)
			b.WriteByte(c)
			i += 2
			continue
		}
		b.WriteByte(raw[i])
	}
	return b.String()
}

// dir is the directory served; none given is the working directory.
func (m mount) dir() string {
	if m.root == "" {
		return "."
	}
	return m.root
}

func paths(t *rapid.T, c *lib.Case) {
	root := inbuilt.New()
	var mounts []mount
	n := rapid.IntRange(1, 2).Draw(t, "nmounts")
	used := map[string]bool{}
	within := rapid.IntRange(0, 9).Draw(t, "working directory is the root") == 0
	if within {
		must(os.Chdir(filepath.Join(base, "root")))
		defer func() { must(os.Chdir(base)) }()
	}
	for i := 0; i < n; i++ {
		m := mount{prefix: rapid.SampledFrom([]string{"/static", "/s", "/", "/s/t", "/static/", "/root", "/dir", "/long/prefix/of/files"}).Draw(t, "prefix")}
		m.root = rapid.SampledFrom([]string{"root", "root/", "root/dir", "./root"}).Draw(t, "root")
		switch rapid.IntRange(0, 3).Draw(t, "absolute") {
		case 0:
			m.root = filepath.Join(base, m.root)
		case 1:
			m.root = base + "/" + m.root
		case 2:
			// relative to the working directory, may be shorter than the prefix
			m.root = rapid.SampledFrom([]string{"r", "r/", "./r"}).Draw(t, "short root")
		}
		if within {
			m.root = rapid.SampledFrom([]string{"", ".", "./", "dir", "../root"}).Draw(t, "root from within")
		}
		r := root
		resource := rapid.IntRange(0, 5).Draw(t, "resource") == 0
		if resource {
			m.group = rapid.SampledFrom([]string{"/g", "/static", "/res/ource"}).Draw(t, "resource")
		} else if rapid.IntRange(0, 2).Draw(t, "ingroup") == 0 {
			m.group = rapid.SampledFrom([]string{"/g", "/static"}).Draw(t, "group")
			r = root.Group(m.group)
		}
		m.full = path.Join("/", m.group, m.prefix)
		if used[m.full] {
			continue
		}
		used[m.full] = true
		if resource {
			root.Resource(m.group).Static(m.prefix, m.root)
		} else if rapid.Bool().Draw(t, "mws") {
			m.mws = true
			r.Static(m.prefix, m.root, func(next inbuilt.Handler, req *http.Request) *http.Response {
				return next(req).Header("X-Mw", "1")
			})
		} else {
			r.Static(m.prefix, m.root)
		}
		c.Logf("Static(%s%s -> %s)", m.group, m.prefix, strings.TrimPrefix(m.root, base))
		mounts = append(mounts, m)
	}
	if rapid.Bool().Draw(t, "dynamic") {
		root.Get("/api/{x}", http.Respond)
	}
	rt := lib.Initialize(t, root)
	if rapid.IntRange(0, 2).Draw(t, "changing") == 0 {
		changing(t, c, rt, mounts)
		return
	}
	nconn := rapid.IntRange(1, 3).Draw(t, "nconns")
	all := make([][]request, nconn)
	conns := make([]*lib.Conn, nconn)
	crashed := make([]string, nconn)
	for i := range conns {
		var data []byte
		for k := rapid.IntRange(1, 6).Draw(t, "nreqs"); k > 0; k-- {
			r := genRequest(t, rapid.SampledFrom(mounts).Draw(t, "mount"))
			r.decoded = decode(r.raw)
			all[i] = append(all[i], r)
			data = append(data, fmt.Sprintf("%s %s HTTP/1.1\r\n\r\n", r.method, r.raw)...)
			c.Logf("connection %d: %s %s", i, r.method, r.raw)
		}
		conns[i] = lib.NewConn([][]byte{data})
	}
	var wg sync.WaitGroup
	for i := range conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			crashed[i] = lib.Serve(config.Default(), conns[i], encryption.Plain, rt)
		}()
	}
	wg.Wait()
	for i := range conns {
		if crashed[i] != "" {
			c.Failf(t, "serving panicked: %s", crashed[i])
		}
		var wants []want
		for _, r := range all[i] {
			wants = append(wants, expect(mounts, r))
		}
		verify(t, c, fmt.Sprintf("connection %d", i), all[i], wants, conns[i].Out)
	}
	c.NonTrivial(fmt.Sprint(all), fmt.Sprint(mounts))
}

func verify(t *rapid.T, c *lib.Case, where string, reqs []request, wants []want, out []byte) {
	if strings.Contains(string(out), "SECRET") {
		c.Failf(t, "a file outside of the root was returned: %s", lib.Q(out))
	}
	var heads []bool
	for _, r := range reqs {
		heads = append(heads, r.method == "HEAD")
	}
	finals, _, err := lib.ParseAll(out, heads)
	if err != nil || len(finals) != len(reqs) || len(wants) != len(reqs) {
		c.Failf(t, "%s: %d responses to %d requests (%d seen by the router), %v: %s", where, len(finals), len(reqs), len(wants), err, lib.Q(out))
	}
	for k, r := range reqs {
		if err := wants[k].check(r, finals[k]); err != nil {
			c.Failf(t, "%s, request %d, %s %s (decoded %q): %v", where, k, r.method, r.raw, r.decoded, err)
		}
		c.Class(fmt.Sprint(finals[k].Code))
	}
}

// before calls a function ahead of every request routed.
type before struct {
	router.Router
	fn func()
}

func (b before) OnRequest(req *http.Request) *http.Response {
	b.fn()
	return b.Router.OnRequest(req)
}

var changeable = []string{"a.txt", "dir/b.css", "new.txt", "dir/new", "big.bin", "gone"}

// changing: files are written, truncated, removed and replaced by directories between the requests. The
// response must be about what is there when the request comes.
func changing(t *rapid.T, c *lib.Case, rt router.Router, mounts []mount) {
	c.Class("changing")
	roots := []string{"root/", "r/"}
	defer func() {
		for _, name := range changeable {
			for _, root := range roots {
				p := filepath.Join(base, root, name)
				must(os.RemoveAll(p))
				if body, ok := files[root+name]; ok {
					must(os.WriteFile(p, []byte(body), 0o644))
				}
			}
		}
	}()
	focus := rapid.SliceOfN(rapid.SampledFrom(changeable), 1, 2).Draw(t, "focus")
	for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
		var (
			data    []byte
			reqs    []request
			changes []func()
			wants   []want
		)
		for k := rapid.IntRange(1, 6).Draw(t, "nreqs"); k > 0; k-- {
			name := rapid.SampledFrom(focus).Draw(t, "file")
			change := func() {}
			switch kind := rapid.IntRange(0, 5).Draw(t, "change"); kind {
			case 0, 1, 2:
				body := rapid.SampledFrom([]string{"", "x", "inside a.txt\n", "another content", strings.Repeat("longer", 30), strings.Repeat("huge", 20000)}).Draw(t, "content")
				fresh := rapid.Bool().Draw(t, "fresh")
				change = func() {
					for _, root := range roots {
						p := filepath.Join(base, root, name)
						if st, err := os.Stat(p); err == nil && (fresh || st.IsDir()) {
							must(os.RemoveAll(p))
						}
						must(os.MkdirAll(filepath.Dir(p), 0o755))
						must(os.WriteFile(p, []byte(body), 0o644))
					}
				}
				c.Logf("write %s: %d bytes, fresh: %v", name, len(body), fresh)
			case 3:
				dir := rapid.Bool().Draw(t, "dir")
				change = func() {
					for _, root := range roots {
						must(os.RemoveAll(filepath.Join(base, root, name)))
						if dir {
							must(os.MkdirAll(filepath.Join(base, root, name), 0o755))
						}
					}
				}
				c.Logf("remove %s, directory instead: %v", name, dir)
			}
			m := rapid.SampledFrom(mounts).Draw(t, "mount")
			r := request{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD"}).Draw(t, "method")}
			rel := name
			if strings.HasSuffix(strings.TrimSuffix(m.root, "/"), "/dir") {
				rel = strings.TrimPrefix(name, "dir/")
			}
			r.raw = strings.TrimSuffix(m.full, "/") + "/" + rel
			r.decoded = r.raw
			c.Logf("%s %s", r.method, r.raw)
			reqs = append(reqs, r)
			changes = append(changes, change)
			data = append(data, fmt.Sprintf("%s %s HTTP/1.1\r\n\r\n", r.method, r.raw)...)
		}
		conn := lib.NewConn([][]byte{data})
		msg := lib.Serve(config.Default(), conn, encryption.Plain, before{rt, func() {
			if k := len(wants); k < len(reqs) {
				changes[k]()
				wants = append(wants, expect(mounts, reqs[k]))
			}
		}})
		if msg != "" {
			c.Failf(t, "serving panicked: %s", msg)
		}
		verify(t, c, "changing files", reqs, wants, conn.Out)
		c.NonTrivial(string(data), fmt.Sprint(wants), fmt.Sprint(mounts))
	}
}

// want is what the file system says about a request.
type want struct {
	served    bool // the path is under a mount
	canonical bool
	exists    bool
	mws       bool
	content   string
	ext       string
}

func expect(mounts []mount, r request) (w want) {
	decoded := r.decoded
	if decoded != "/" {
		decoded = strings.TrimRight(decoded, "/")
		if decoded == "" {
			decoded = "/"
		}
	}
	// the mount with the longest prefix
	var m *mount
	for k := range mounts {
		if strings.HasPrefix(decoded, mounts[k].full) && (m == nil || len(mounts[k].full) > len(m.full)) {
			m = &mounts[k]
		}
	}
	if m == nil {
		return w
	}
	dir := strings.TrimSuffix(m.full, "/") + "/"
	rel, under := strings.CutPrefix(decoded, dir)
	if !under || rel == "" {
		return w
	}
	content, err := os.ReadFile(filepath.Join(m.dir(), path.Clean("/"+rel)))
	return want{
		served:    true,
		canonical: path.Clean("/"+rel) == "/"+rel && !strings.ContainsAny(rel, "\\\x00"),
		exists:    err == nil,
		mws:       m.mws,
		content:   string(content),
		ext:       filepath.Ext(rel),
	}
}

func (w want) check(r request, resp *lib.Resp) error {
	if resp.Code != 200 && resp.Code != 404 {
		return fmt.Errorf("code %d", resp.Code)
	}
	if !w.served {
		if resp.Code != 404 {
			return fmt.Errorf("code %d for a path which isn't served", resp.Code)
		}
		return nil
	}
	if w.canonical && w.exists && resp.Code != 200 {
		return fmt.Errorf("code %d, but there's such a file", resp.Code)
	}
	if resp.Code == 404 {
		return nil
	}
	if w.mws {
		if _, err := resp.One("X-Mw"); err != nil {
			return err
		}
	}
	if !w.exists {
		return fmt.Errorf("code 200 for a missing file, content %s", lib.Q(resp.Body))
	}
	if r.method != "HEAD" && string(resp.Body) != w.content {
		return fmt.Errorf("content %s instead of %s", lib.Q(resp.Body), lib.Q([]byte(w.content)))
	}
	ct, err := resp.One("Content-Type")
	if err != nil || !lib.MimeOK(w.ext, ct) {
		return fmt.Errorf("content type %q, %v", ct, err)
	}
	return nil
}

// everyExtension: files of every known extension get the registered type.
func everyExtension(t *testing.T) {
	lib.Enumerate(t, "extensions", func(check func(*lib.Case, func() error)) {
		dir := t.TempDir()
		rt := inbuilt.New().Static("/", dir).Initialize()
		exts := []string{"", ".x", ".CSS", ".jss", ".htmll"}
		for ext := range lib.Mimes {
			exts = append(exts, ext)
		}
		for _, ext := range exts {
			c := &lib.Case{}
			c.Logf("file%s", ext)
			check(c, func() error {
				must(os.WriteFile(dir+"/file"+ext, []byte("data of "+ext), 0o644))
				conn := lib.NewConn([][]byte{[]byte("GET /file" + ext + " HTTP/1.1\r\n\r\n")})
				if p := lib.Serve(config.Default(), conn, encryption.Plain, rt); p != "" {
					return fmt.Errorf("panic %s", p)
				}
				finals, _, err := lib.ParseAll(conn.Out, nil)
				if err != nil || len(finals) != 1 {
					return fmt.Errorf("%v %s", err, lib.Q(conn.Out))
				}
				ct, err := finals[0].One("Content-Type")
				if err != nil || !lib.MimeOK(ext, ct) || string(finals[0].Body) != "data of "+ext {
					return fmt.Errorf("content type %q for %s: %s", ct, ext, lib.Q(conn.Out))
				}
				c.NonTrivial(ext)
				return nil
			})
		}
	})
}
