// C20: header and parameter storage behaves as an ordered multimap.
package c20

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"testing"
	"unsafe"

	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC20(t *testing.T) {
	lib.Run(t, "C20",
		lib.Prop{Name: "histories", Quick: 8000, Fn: histories},
		lib.Prop{Name: "from map", Quick: 2000, Fn: fromMap},
	)
}

type pair struct{ k, v string }

type model []pair

func (m model) values(key string) (vals []string) {
	for _, p := range m {
		if strings.EqualFold(p.k, key) {
			vals = append(vals, p.v)
		}
	}
	return vals
}

func (m model) keys() (keys []string) {
next:
	for _, p := range m {
		for _, k := range keys {
			if strings.EqualFold(k, p.k) {
				continue next
			}
		}
		keys = append(keys, p.k)
	}
	return keys
}

var keyPool = []string{"a", "A", "b", "ab", "AB", "Ab", "aB", "abc", "x-key", "X-Key", "X-KEY", "", "Content-Type", "content-type", "Content-Typo", "a-b", "a_b", "aa", "aaa"}

func genKey(t *rapid.T, label string) string {
	if lib.Hit(t) {
		if rapid.Bool().Draw(t, "words") {
			return lib.Word(t)
		}
		return lib.Noise(t, lib.Num(t, 0, 300))
	}
	if rapid.IntRange(0, 4).Draw(t, label+" kind") == 0 {
		return rapid.StringMatching(`[a-zA-Z0-9-]{0,40}`).Draw(t, label)
	}
	return rapid.SampledFrom(keyPool).Draw(t, label)
}

// mem makes strings in memory that can be overwritten, as the parser's buffers are.
type mem struct{ bufs [][]byte }

func (m *mem) str(s string) string {
	if s == "" {
		return ""
	}
	b := []byte(s)
	m.bufs = append(m.bufs, b)
	return unsafe.String(&b[0], len(b))
}

func (m *mem) overwrite() {
	for _, b := range m.bufs {
		for i := range b {
			b[i] = '#'
		}
	}
	m.bufs = nil
}

func compare(s headers.Headers, m model, probes []string) error {
	if s.Len() != len(m) {
		return fmt.Errorf("Len is %d instead of %d", s.Len(), len(m))
	}
	var got model
	for _, p := range s.Unwrap() {
		got = append(got, pair{strings.Clone(p.Key), strings.Clone(p.Value)})
	}
	if !slices.Equal(got, m) {
		return fmt.Errorf("Unwrap: %q instead of %q", got, m)
	}
	var it model
	iter := s.Iter()
	for {
		p, ok := iter.Next()
		if !ok {
			break
		}
		if it = append(it, pair{p.Key, p.Value}); len(it) > len(m) {
			return fmt.Errorf("Iter yields too much: %q", it)
		}
	}
	if !slices.Equal(it, m) {
		return fmt.Errorf("Iter: %q instead of %q", it, m)
	}
	if keys := s.Keys(); !slices.Equal(keys, m.keys()) {
		return fmt.Errorf("Keys: %q instead of %q", keys, m.keys())
	}
	for _, key := range probes {
		vals := m.values(key)
		if got := s.Values(key); !slices.Equal(got, vals) || len(vals) == 0 && got != nil {
			return fmt.Errorf("Values(%q): %q instead of %q", key, got, vals)
		}
		first, def := "", "the default"
		if len(vals) > 0 {
			first, def = vals[0], vals[0]
		}
		if got := s.Value(key); got != first {
			return fmt.Errorf("Value(%q): %q instead of %q", key, got, first)
		}
		if got := s.ValueOr(key, "the default"); got != def {
			return fmt.Errorf("ValueOr(%q): %q instead of %q", key, got, def)
		}
		if got, found := s.Get(key); got != first || found != (len(vals) > 0) {
			return fmt.Errorf("Get(%q): %q, %v instead of %q, %v", key, got, found, first, len(vals) > 0)
		}
		if got := s.Has(key); got != (len(vals) > 0) {
			return fmt.Errorf("Has(%q): %v", key, got)
		}
	}
	return nil
}

func histories(t *rapid.T, c *lib.Case) {
	type store struct {
		s headers.Headers
		m model
		// mem is the memory the contents came from; a clone has none
		mem *mem
	}
	var s headers.Headers
	if n := rapid.IntRange(-1, 12).Draw(t, "prealloc"); n < 0 {
		s = headers.New()
	} else {
		s = headers.NewPrealloc(n)
	}
	stores := []*store{{s: s, mem: &mem{}}}
	n := rapid.IntRange(1, 30).Draw(t, "ops")
	if rapid.IntRange(0, 49).Draw(t, "many") == 49 {
		n = rapid.IntRange(31, 200).Draw(t, "how many")
	}
	adds, key := 0, ""
	for i := 0; i < n; i++ {
		at := rapid.IntRange(0, len(stores)-1).Draw(t, "store")
		st := stores[at]
		op := rapid.IntRange(0, 11).Draw(t, "op")
		switch {
		case op < 6:
			k, v := genKey(t, "key"), lib.WordOr(t, func(string) bool { return true }, func() string { return rapid.StringMatching(`[a-z ]{0,6}`).Draw(t, "value") })
			c.Logf("%d: Add(%q, %q)", at, k, v)
			key += fmt.Sprintf("%d+%s=%s;", at, k, v)
			if ret := st.s.Add(st.mem.str(k), st.mem.str(v)); ret != st.s {
				c.Failf(t, "Add returns another storage")
			}
			st.m = append(st.m, pair{k, v})
			adds++
			if rapid.IntRange(0, 99).Draw(t, "many") == 0 {
				// a lot of pairs at once
				m := lib.NumOr(t, 1, 300, func() int { return rapid.SampledFrom([]int{16, 33, 65, 129, 300}).Draw(t, "pairs") })
				c.Logf("%d: Add(%q, i) %d times", at, k, m)
				for j := 0; j < m; j++ {
					kk, vv := k, fmt.Sprint(j)
					if j%2 == 1 {
						kk = fmt.Sprintf("%s%d", k, j/6)
					}
					st.s.Add(st.mem.str(kk), st.mem.str(vv))
					st.m = append(st.m, pair{kk, vv})
				}
			}
		case op == 6:
			c.Logf("%d: Clear()", at)
			key += fmt.Sprintf("%d-;", at)
			st.s.Clear()
			st.m = nil
			// what the cleared pairs referred to may now be overwritten, as it happens for the next request
			st.mem.overwrite()
		case op == 7 && len(stores) < 4:
			c.Logf("%d: Clone() -> %d", at, len(stores))
			key += fmt.Sprintf("%d*;", at)
			stores = append(stores, &store{s: st.s.Clone(), m: append(model(nil), st.m...), mem: &mem{}})
		default:
			probe := genKey(t, "probe")
			c.Logf("%d: look up %q", at, probe)
			if err := compare(st.s, st.m, []string{probe}); err != nil {
				c.Failf(t, "storage %d: %v", at, err)
			}
		}
	}
	if adds >= 2 {
		c.NonTrivial(key)
	}
	for i, st := range stores {
		probes := append([]string(nil), keyPool...)
		every := 1 + len(st.m)/30
		for j, p := range st.m {
			if j%every != 0 {
				continue
			}
			probes = append(probes, p.k, strings.ToUpper(p.k), strings.ToLower(p.k), p.k+"x")
		}
		if err := compare(st.s, st.m, probes); err != nil {
			c.Failf(t, "at the end, storage %d: %v", i, err)
		}
	}
	// what one storage returned isn't affected by using another
	for i := range stores {
		a, b := stores[i], stores[(i+1)%len(stores)]
		if a == b || len(a.m) == 0 || len(b.m) == 0 {
			continue
		}
		va, ka := a.s.Values(a.m[0].k), a.s.Keys()
		_, _ = b.s.Values(b.m[0].k), b.s.Keys()
		if fmt.Sprintf("%q", va) != fmt.Sprintf("%q", a.m.values(a.m[0].k)) || fmt.Sprintf("%q", ka) != fmt.Sprintf("%q", a.m.keys()) {
			c.Failf(t, "values %q and keys %q of storage %d changed by using another one: %q", va, ka, i, a.m)
		}
	}
	// a clone keeps its contents whatever happens to the memory of the original
	for i, st := range stores {
		cl := st.s.Clone()
		st.mem.overwrite()
		st.s.Clear()
		st.s.Add("overwritten", "yes").Add("overwritten", "twice")
		if err := compare(cl, st.m, keyPool); err != nil {
			c.Failf(t, "the clone of storage %d after the original changed: %v", i, err)
		}
	}
}

func fromMap(t *rapid.T, c *lib.Case) {
	m := map[string][]string{}
	n := rapid.IntRange(0, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := rapid.StringMatching(`[a-z]{1,4}`).Draw(t, "key")
		m[k] = rapid.SliceOfN(rapid.StringMatching(`[a-z]{0,3}`), 0, 3).Draw(t, "values")
	}
	c.Logf("%q", m)
	if n >= 2 {
		c.NonTrivial(fmt.Sprintf("%q", m))
	}
	s := headers.NewFromMap(m)
	total := 0
	for k, vals := range m {
		total += len(vals)
		got := append([]string{}, s.Values(k)...)
		if !reflect.DeepEqual(got, append([]string{}, vals...)) {
			c.Failf(t, "Values(%q): %q", k, got)
		}
		if s.Has(k) != (len(vals) > 0) {
			c.Failf(t, "Has(%q): %v", k, s.Has(k))
		}
	}
	if s.Len() != total {
		c.Failf(t, "Len: %d instead of %d", s.Len(), total)
	}
}
