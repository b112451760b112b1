// C39: TLS listeners present the right certificates, whatever is found in the cache.
package c39

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	mrand "math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

var (
	scratch string
	cases   int
	pairs   []*pair
	// contacts counts the attempts to reach the certificate authority. They all fail.
	contacts atomic.Int32
)

const patience = 20 * time.Second

func TestC39(t *testing.T) {
	scratch = t.TempDir()
	// nothing outside is ever read or written
	t.Setenv("HOME", filepath.Join(scratch, "home"))
	t.Setenv("XDG_CACHE_HOME", filepath.Join(scratch, "cache"))
	log.SetOutput(io.Discard)
	for i := 0; i < 3; i++ {
		pairs = append(pairs, newPair("localhost", fmt.Sprintf("pair %d", i)))
	}
	resolve(t)
	lib.Run(t, "C39",
		lib.Prop{Name: "local", Quick: 60, Fn: local},
		lib.Prop{Name: "given", Quick: 120, Fn: given},
		lib.Prop{Name: "domains", Quick: 80, Fn: domains},
	)
}

// resolve makes every host name not found elsewhere a name of 127.0.0.1, by a name server of its own.
func resolve(t *testing.T) {
	server, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { server.Close() })
	go func() {
		buf := make([]byte, 1500)
		for {
			n, from, err := server.ReadFrom(buf)
			if err != nil {
				return
			}
			q := buf[:n]
			end := 12
			for end < n && q[end] != 0 {
				end += int(q[end]) + 1
			}
			if end += 5; end > n {
				continue
			}
			if bytes.Contains(q[12:end], []byte("letsencrypt")) {
				contacts.Add(1)
			}
			reply := append(bytes.Clone(q[:2]), 0x81, 0x80, 0, 1, 0, 0, 0, 0, 0, 0)
			reply = append(reply, q[12:end]...)
			if q[end-3] == 1 { // A
				reply[7] = 1
				reply = append(reply, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 0, 0, 1)
			}
			_, _ = server.WriteTo(reply, from)
		}
	}()
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return net.Dial("udp", server.LocalAddr().String())
	}}
}

// pair is a certificate with its key.
type pair struct {
	crt, key []byte // PEM
	chain    []byte // DER, one after another
}

func newPair(domain, name string) *pair {
	priv, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	template := &x509.Certificate{
		SerialNumber: big.NewInt(mrand.Int64()), Subject: pkix.Name{CommonName: name}, DNSNames: []string{domain},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, template, template, &priv.PublicKey, priv)
	if err != nil {
		panic(err)
	}
	keyDER, err := x509.MarshalECPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return &pair{
		crt:   pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}),
		key:   pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: keyDER}),
		chain: der,
	}
}

// followed returns the same pair whose file tells other certificates after its own, as of its issuers.
func (p *pair) followed(t *rapid.T) *pair {
	q := *p
	for k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "issuers"); k > 0; k-- {
		issuer := rapid.SampledFrom(pairs).Draw(t, "issuer")
		q.crt = append(bytes.Clone(q.crt), issuer.crt...)
		q.chain = append(bytes.Clone(q.chain), issuer.chain...)
	}
	return &q
}

// caseDir makes a directory of this case and the place of the cache in it.
func caseDir(t *rapid.T) (dir, cache string) {
	cases++
	dir = filepath.Join(scratch, fmt.Sprintf("case%d", cases))
	must(os.MkdirAll(dir, 0o755))
	if rapid.Bool().Draw(t, "XDG_CACHE_HOME") {
		must(os.Setenv("XDG_CACHE_HOME", filepath.Join(dir, "xdg")))
		return dir, filepath.Join(dir, "xdg", "golang-autocert")
	}
	must(os.Unsetenv("XDG_CACHE_HOME"))
	must(os.Setenv("HOME", filepath.Join(dir, "home")))
	return dir, filepath.Join(dir, "home", ".cache", "golang-autocert")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func freeAddr(host string) string { return net.JoinHostPort(host, lib.Port()) }

type app struct {
	*indigo.App
	returned chan error
	calls    atomic.Int32
	plain    atomic.Int32 // requests marked as not encrypted
}

// start serves the application; an error means that it doesn't.
func (a *app) start() error {
	started := make(chan struct{})
	a.returned = make(chan error, 1)
	a.App.OnStart(func() { close(started) })
	handler := func(req *http.Request) *http.Response {
		a.calls.Add(1)
		if req.Env.Encryption != encryption.TLS {
			a.plain.Add(1)
		}
		return http.String(req, req.Path)
	}
	onError := func(req *http.Request) *http.Response { return http.Error(req, req.Env.Error) }
	go func() { a.returned <- a.App.Serve(simple.New(handler, onError)) }()
	select {
	case <-started:
		return nil
	case err := <-a.returned:
		if err == nil {
			err = errors.New("serving returned nothing")
		}
		return err
	case <-time.After(patience):
		return errors.New("neither started nor returned")
	}
}

func (a *app) stop() {
	a.App.Stop()
	select {
	case <-a.returned:
	case <-time.After(patience):
		panic("verif: the application doesn't stop")
	}
}

// version is the newest version of TLS offered, different from one client to another.
func version(path string) uint16 {
	if len(path)%2 == 0 {
		return tls.VersionTLS12
	}
	return 0
}

// exchange makes a request over TLS and returns the certificates presented.
func exchange(addr, name, path string) ([]byte, error) {
	conn, err := tls.DialWithDialer(&net.Dialer{Timeout: patience}, "tcp", addr, &tls.Config{InsecureSkipVerify: true, ServerName: name, MaxVersion: version(path)})
	if err != nil {
		return nil, err
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(patience))
	if _, err := fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", path); err != nil {
		return nil, err
	}
	resp, err := io.ReadAll(conn)
	if err != nil && len(resp) == 0 {
		return nil, err
	}
	if !bytes.HasPrefix(resp, []byte("HTTP/1.1 200 ")) || !bytes.HasSuffix(resp, []byte("\r\n\r\n"+path)) {
		return nil, fmt.Errorf("response %q", resp)
	}
	var chain []byte
	for _, cert := range conn.ConnectionState().PeerCertificates {
		chain = append(chain, cert.Raw...)
	}
	return chain, nil
}

// speaksPlain tells whether a request without TLS is answered by the handler.
func (a *app) speaksPlain(addr string) bool {
	conn, err := net.DialTimeout("tcp", addr, patience)
	if err != nil {
		return false
	}
	defer conn.Close()
	before := a.calls.Load()
	_ = conn.SetDeadline(time.Now().Add(patience))
	_, _ = io.WriteString(conn, "GET /plain HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
	resp, _ := io.ReadAll(conn)
	return a.calls.Load() != before || bytes.Contains(resp, []byte("/plain"))
}

// content is what may be found in a file of the cache: the text is nil if there is none.
func content(t *rapid.T, label string, full [][]byte) ([]byte, bool) {
	switch rapid.IntRange(0, 5).Draw(t, label) {
	case 0:
		return nil, false
	case 1:
		return []byte{}, true
	case 2:
		b := rapid.SampledFrom(full).Draw(t, label+" of")
		return b[:rapid.IntRange(0, len(b)-2).Draw(t, label+" length")], true
	case 3:
		return []byte("garbage\n"), true
	}
	return rapid.SampledFrom(full).Draw(t, label+" of"), true
}

func write(path string, b []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, b, 0o644))
}

// local: the certificate for local addresses.
func local(t *rapid.T, c *lib.Case) {
	dir, cache := caseDir(t)
	defer os.RemoveAll(dir)
	crtFile, keyFile := filepath.Join(cache, "localhost.crt"), filepath.Join(cache, "localhost.key")
	var crts, keys [][]byte
	for _, p := range pairs {
		crts, keys = append(crts, p.crt), append(keys, p.key)
	}
	state := rapid.IntRange(0, 7).Draw(t, "cache")
	var want *pair
	unusable := false
	switch state {
	case 0:
		c.Logf("no cache")
	case 1:
		must(os.MkdirAll(cache, 0o755))
		c.Logf("an empty cache")
	case 2:
		want = rapid.SampledFrom(pairs).Draw(t, "pair")
		write(crtFile, want.crt)
		write(keyFile, want.key)
		c.Logf("a usable pair")
	case 3:
		unusable = true
		// a file where the directory has to be
		must(os.MkdirAll(filepath.Dir(filepath.Dir(cache)), 0o755))
		write(filepath.Dir(cache), []byte("x"))
		c.Logf("no cache possible")
	default:
		crt, hasCrt := content(t, "crt", crts)
		key, hasKey := content(t, "key", keys)
		if hasCrt {
			write(crtFile, crt)
		}
		if hasKey {
			write(keyFile, key)
		}
		for _, p := range pairs {
			if bytes.Equal(p.crt, crt) && bytes.Equal(p.key, key) {
				want = p
			}
		}
		c.Logf("crt (%v) %q\nkey (%v) %q", hasCrt, crt, hasKey, key)
	}
	host := rapid.SampledFrom([]string{"localhost", "LocalHost", "127.0.0.1", "0.0.0.0", ""}).Draw(t, "host")
	starts := rapid.IntRange(1, 3).Draw(t, "starts")
	if want == nil {
		starts = rapid.IntRange(1, 2).Draw(t, "starts of a new one")
	}
	c.Logf("host %q, %d starts", host, starts)
	var leaf []byte
	if want != nil {
		leaf = want.chain
	}
	for i := 0; i < starts; i++ {
		// neither the age of the files nor their mode matter
		for _, f := range []string{crtFile, keyFile} {
			when := time.Now().Add(rapid.SampledFrom([]time.Duration{0, -2 * time.Hour, -48 * time.Hour, -400 * 24 * time.Hour, 24 * time.Hour}).Draw(t, "age"))
			_ = os.Chtimes(f, when, when)
			_ = os.Chmod(f, rapid.SampledFrom([]os.FileMode{0o600, 0o644}).Draw(t, "mode"))
		}
		_, port, _ := net.SplitHostPort(freeAddr("localhost"))
		addr := host + ":" + port
		a := &app{App: indigo.New(freeAddr("127.0.0.1"))}
		a.App.AutoHTTPS(addr)
		dial := "127.0.0.1:" + port
		second := ""
		if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
			_, port, _ := net.SplitHostPort(freeAddr("localhost"))
			second = "127.0.0.1:" + port
			a.App.AutoHTTPS(second)
		}
		if err := a.start(); err != nil {
			if errors.Is(err, syscall.EADDRINUSE) {
				t.Skip("the address is in use")
			}
			c.Failf(t, "start %d: %v", i, err)
		}
		if unusable {
			if a.speaksPlain(dial) {
				a.stop()
				c.Failf(t, "without a certificate the address is served in plain")
			}
			a.stop()
			c.Class("no certificate possible")
			c.NonTrivial(host, state, i)
			return
		}
		got, err := exchange(dial, "localhost", rapid.SampledFrom([]string{"/x", "/xx"}).Draw(t, "client"))
		plain := a.speaksPlain(dial)
		var got2 []byte
		var err2 error
		if second != "" {
			got2, err2 = exchange(second, "", "/yy")
		}
		a.stop()
		switch {
		case err != nil:
			c.Failf(t, "start %d: %v", i, err)
		case plain:
			c.Failf(t, "start %d: a request without TLS is answered", i)
		case err2 != nil:
			c.Failf(t, "start %d, the second address: %v", i, err2)
		case a.plain.Load() > 0:
			c.Failf(t, "start %d: the request isn't marked as encrypted", i)
		case leaf != nil && !bytes.Equal(got, leaf):
			c.Failf(t, "start %d: another certificate is presented though there is a usable one", i)
		case second != "" && !bytes.Equal(got, got2):
			c.Failf(t, "start %d: two certificates for the local addresses", i)
		}
		if leaf == nil {
			leaf = got
			cert, err := x509.ParseCertificate(got)
			if err != nil {
				c.Failf(t, "the certificate: %v", err)
			}
			if now := time.Now(); now.Before(cert.NotBefore.Add(-time.Second)) || now.After(cert.NotAfter) {
				c.Failf(t, "the new certificate is valid from %s until %s", cert.NotBefore, cert.NotAfter)
			}
			if info, err := os.Stat(keyFile); err != nil {
				c.Failf(t, "the key isn't kept: %v", err)
			} else if place, err := os.Stat(cache); err != nil || info.Mode().Perm()&0o044 != 0 && place.Mode().Perm()&0o011 != 0 {
				c.Failf(t, "the private key can be read by others: %s", info.Mode())
			}
			c.Class("made")
		}
		if want != nil {
			crt, _ := os.ReadFile(crtFile)
			key, _ := os.ReadFile(keyFile)
			if !bytes.Equal(crt, want.crt) || !bytes.Equal(key, want.key) {
				c.Failf(t, "a usable pair is replaced")
			}
			c.Class("reused")
		}
	}
	c.NonTrivial(host, state, starts, fmt.Sprintf("%x", lib.Seed()), cases)
}

// given: certificates given by the user.
func given(t *rapid.T, c *lib.Case) {
	dir, _ := caseDir(t)
	defer os.RemoveAll(dir)
	serveGiven(t, c, dir)
	if rapid.IntRange(0, 3).Draw(t, "once more") == 0 {
		// another application in the same process; the files are others by now
		c.Logf("once more, with other files")
		serveGiven(t, c, dir)
	}
}

func serveGiven(t *rapid.T, c *lib.Case, dir string) {
	n := rapid.IntRange(1, 3).Draw(t, "listeners")
	plainAddr := freeAddr("127.0.0.1")
	a := &app{App: indigo.New(plainAddr)}
	var wants []*pair
	var addrs []string
	bad := false
	var crts, keys [][]byte
	for _, p := range pairs {
		crts, keys = append(crts, p.crt), append(keys, p.key)
	}
	for i := 0; i < n; i++ {
		crtFile, keyFile := filepath.Join(dir, fmt.Sprint(i, ".crt")), filepath.Join(dir, fmt.Sprint(i, ".key"))
		p := rapid.SampledFrom(pairs).Draw(t, "pair").followed(t)
		crt, key := p.crt, p.key
		hasCrt, hasKey := true, true
		if rapid.IntRange(0, 5).Draw(t, "damaged") == 0 {
			crt, hasCrt = content(t, "crt", crts)
			key, hasKey = content(t, "key", keys)
			bad, p = true, nil
			for _, q := range pairs {
				if bytes.Equal(q.crt, crt) && bytes.Equal(q.key, key) {
					bad, p = false, q
				}
			}
			c.Logf("listener %d: damaged files, usable: %v", i, p != nil)
		}
		os.Remove(crtFile)
		os.Remove(keyFile)
		if hasCrt {
			write(crtFile, crt)
		}
		if hasKey {
			write(keyFile, key)
		}
		addr := freeAddr("127.0.0.1")
		addrs = append(addrs, addr)
		wants = append(wants, p)
		a.App.HTTPS(addr, crtFile, keyFile)
		if p == nil {
			break
		}
	}
	c.Logf("%d listeners, failing %v", n, bad)
	err := a.start()
	if errors.Is(err, syscall.EADDRINUSE) {
		t.Skip("the address is in use")
	}
	if bad {
		if err == nil {
			a.stop()
			c.Failf(t, "serving with an unusable certificate isn't reported")
		}
		for _, addr := range append(addrs, plainAddr) {
			if conn, err := net.DialTimeout("tcp", addr, patience); err == nil {
				conn.Close()
				c.Failf(t, "%s is still listened on", addr)
			}
		}
		c.Class("unusable")
		c.NonTrivial(lib.Seed(), cases)
		return
	}
	if err != nil {
		c.Failf(t, "%v", err)
	}
	var problem string
	for i, addr := range addrs {
		got, err := exchange(addr, "localhost", rapid.SampledFrom([]string{"/a", "/aa"}).Draw(t, "client"))
		if err != nil {
			problem = fmt.Sprintf("listener %d: %v", i, err)
		} else if !bytes.Equal(got, wants[i].chain) {
			problem = fmt.Sprintf("listener %d presents another certificate", i)
		} else if a.speaksPlain(addr) {
			problem = fmt.Sprintf("listener %d answers in plain", i)
		}
	}
	if problem == "" && a.plain.Load() > 0 {
		problem = "requests aren't marked as encrypted"
	}
	a.stop()
	if problem != "" {
		c.Failf(t, "%s", problem)
	}
	c.NonTrivial(lib.Seed(), cases)
}

var names = []string{"a.example", "b.example", "www.a.example", "c.example.org"}

// domains: certificates of domains, kept in the cache by the certificate manager.
func domains(t *rapid.T, c *lib.Case) {
	dir, cache := caseDir(t)
	defer os.RemoveAll(dir)
	must(os.MkdirAll(cache, 0o700))
	listed := rapid.SliceOfNDistinct(rapid.SampledFrom(names), 0, 3, rapid.ID[string]).Draw(t, "listed")
	isListed := func(name string) bool {
		for _, l := range listed {
			if l == name {
				return true
			}
		}
		return len(listed) == 0
	}
	// a certificate found in the cache is used in any case; there is none for those not listed, neither for one
	// of those listed at times.
	certs := map[string]*pair{}
	uncached := ""
	if rapid.IntRange(0, 3).Draw(t, "uncached") == 0 {
		uncached = rapid.SampledFrom(names).Draw(t, "name uncached")
	}
	for _, name := range names {
		if isListed(name) && name != uncached {
			p := newPair(name, name).followed(t)
			certs[name] = p
			write(filepath.Join(cache, name), append(bytes.Clone(p.key), p.crt...))
		}
	}
	_, port, _ := net.SplitHostPort(freeAddr("localhost"))
	a := &app{App: indigo.New(freeAddr("127.0.0.1"))}
	a.App.AutoHTTPS("site.example:"+port, listed...)
	c.Logf("listed %v, not cached %q", listed, uncached)
	if err := a.start(); err != nil {
		if errors.Is(err, syscall.EADDRINUSE) {
			t.Skip("the address is in use")
		}
		c.Failf(t, "%v", err)
	}
	addr := "127.0.0.1:" + port
	var problem string
	refused := 0
	for _, name := range rapid.Permutation(names).Draw(t, "order") {
		before := contacts.Load()
		got, err := exchange(addr, name, rapid.SampledFrom([]string{"/d", "/dd"}).Draw(t, "client"))
		contacted := contacts.Load() != before
		switch cert := certs[name]; {
		case cert != nil && err != nil:
			problem = fmt.Sprintf("%s: %v", name, err)
		case cert != nil && !bytes.Equal(got, cert.chain):
			problem = fmt.Sprintf("%s gets another certificate", name)
		case cert == nil && err == nil:
			problem = fmt.Sprintf("%s has no certificate, but is served", name)
		case !isListed(name) && contacted:
			problem = fmt.Sprintf("%s isn't listed, but a certificate is asked for", name)
		case isListed(name) && cert == nil && !contacted:
			problem = fmt.Sprintf("%s is listed, but no certificate is asked for", name)
		case cert == nil && isListed(name):
			c.Class("asked for one")
		case cert == nil:
			refused++
		}
	}
	if problem == "" && a.speaksPlain(addr) {
		problem = "a request without TLS is answered"
	}
	if problem == "" && a.plain.Load() > 0 {
		problem = "requests aren't marked as encrypted"
	}
	a.stop()
	if problem != "" {
		c.Failf(t, "%s", problem)
	}
	if refused > 0 {
		c.Class("not listed")
		c.NonTrivial(lib.Seed(), cases)
	}
}
