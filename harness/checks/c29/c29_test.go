// C29: content codings round-trip through the coding manager.
package c29

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/indigo-web/indigo/http/coding"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC29(t *testing.T) {
	lib.Run(t, "C29",
		lib.Prop{Name: "histories", Quick: 10000, Fn: histories},
	)
}

// toy is an invertible coding which marks its output by its identity.
type toy struct {
	id    byte
	token string
	fail  bool
}

var errToy = errors.New("toy failed")

func (y *toy) Token() string { return y.token }

func (y *toy) Encode(in []byte) ([]byte, error) {
	if y.fail {
		return nil, errToy
	}
	out := []byte{y.id}
	for i := len(in) - 1; i >= 0; i-- {
		out = append(out, in[i]^y.id)
	}
	return out, nil
}

func (y *toy) Decode(in []byte) ([]byte, error) {
	if y.fail || len(in) == 0 || in[0] != y.id {
		return nil, errToy
	}
	var out []byte
	for i := len(in) - 1; i >= 1; i-- {
		out = append(out, in[i]^y.id)
	}
	return out, nil
}

var tokenPool = []string{"gzip", "x-gzip", "compress", "x-compress", "deflate", "br", "zstd", "identity", "GZIP", "gzi", "gzipp", "", "x-", "x-deflate", "x-br", "compres", "chunked"}

func genToken(t *rapid.T) string {
	return lib.WordOr(t, func(string) bool { return true }, func() string { return rapid.SampledFrom(tokenPool).Draw(t, "token") })
}

func histories(t *rapid.T, c *lib.Case) {
	size := rapid.SampledFrom([]int64{0, 1, 100, 4096, 10000}).Draw(t, "size")
	ms := []coding.Manager{coding.NewManager(size), coding.NewManager(size)}
	models := []map[string]*toy{{}, {}}
	n := rapid.IntRange(1, 12).Draw(t, "ops")
	if rapid.IntRange(0, 4).Draw(t, "long") == 0 {
		n = rapid.IntRange(12, 60).Draw(t, "many ops")
	}
	trace, added := "", 0
	buffs := map[byte][]byte{}
	for i := 0; i < n; i++ {
		at := rapid.IntRange(0, 1).Draw(t, "manager")
		m, model := ms[at], models[at]
		if rapid.IntRange(0, 2).Draw(t, "op") == 0 {
			y := &toy{id: byte(i + 1), token: genToken(t), fail: rapid.IntRange(0, 5).Draw(t, "fail") == 0}
			c.Logf("%d: AddCoding(%+v)", at, *y)
			trace += fmt.Sprintf("%d+%s%v;", at, y.token, y.fail)
			m.AddCoding(func(buff []byte) coding.Coding {
				if int64(len(buff)) != size {
					c.Failf(t, "the constructor got a buffer of %d bytes", len(buff))
				}
				for i := range buff {
					buff[i] = y.id
				}
				buffs[y.id] = buff
				return y
			})
			model[y.token] = y
			if y.token == "gzip" || y.token == "compress" {
				model["x-"+y.token] = y
			}
			added++
			continue
		}
		token := genToken(t)
		data := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "data")
		if rapid.IntRange(0, 199).Draw(t, "much") == 0 {
			data = []byte(lib.Noise(t, lib.NumOr(t, 0, 70000, func() int {
				return rapid.SampledFrom([]int{100, 1000, 4095, 4096, 4097, 10001, 70000}).Draw(t, "how much")
			})))
		}
		c.Logf("%d: %q of %q", at, token, data)
		trace += fmt.Sprintf("%d?%s%q;", at, token, data)
		orig := bytes.Clone(data)
		enc, err := m.Encode(token, data)
		dec, derr := m.Decode(token, data)
		y := model[token]
		switch {
		case token == "identity" || len(orig) == 0:
			if err != nil || derr != nil || !bytes.Equal(enc, orig) || !bytes.Equal(dec, orig) {
				c.Failf(t, "doesn't pass unchanged: %q, %v; %q, %v", enc, err, dec, derr)
			}
		case y == nil:
			if err == nil || derr == nil {
				c.Failf(t, "an unknown token isn't an error: %q, %v; %q, %v", enc, err, dec, derr)
			}
			if !errors.Is(err, coding.ErrUnknownToken) || !errors.Is(derr, coding.ErrUnknownToken) {
				c.Failf(t, "an unknown token is reported as %v, %v", err, derr)
			}
		default:
			want, werr := y.Encode(orig)
			if !errors.Is(err, werr) || !bytes.Equal(enc, want) {
				c.Failf(t, "Encode: %q, %v instead of %q, %v", enc, err, want, werr)
			}
			want, werr = y.Decode(orig)
			if !errors.Is(derr, werr) || !bytes.Equal(dec, want) {
				c.Failf(t, "Decode: %q, %v instead of %q, %v", dec, derr, want, werr)
			}
			if err == nil {
				back, err := m.Decode(token, enc)
				if err != nil || !bytes.Equal(back, orig) {
					c.Failf(t, "decoding the encoded: %q, %v", back, err)
				}
			}
		}
	}
	// a buffer given to a coding is its own
	for id, buff := range buffs {
		for _, b := range buff {
			if b != id {
				c.Failf(t, "the buffer of coding %d is changed by %d", id, b)
			}
		}
	}
	if added > 0 {
		c.NonTrivial(trace)
	}
}
