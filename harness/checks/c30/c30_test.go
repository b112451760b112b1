// C30: escaped text is printable ASCII and loses no printable byte.
package c30

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC30(t *testing.T) {
	lib.RunMore(t, "C30", enumerate,
		lib.Prop{Name: "texts", Quick: 15000, Fn: texts},
	)
}

var named = map[byte]byte{0: '0', 7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}

func reference(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= ' ' && c <= '~' {
			b.WriteByte(c)
			continue
		}
		b.WriteByte('\\')
		if n, ok := named[c]; ok {
			b.WriteByte(n)
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

func judge(s string) error {
	got := http.Escape(s)
	for i := 0; i < len(got); i++ {
		if got[i] < ' ' || got[i] > '~' {
			return fmt.Errorf("%q is escaped to %q, which isn't printable", s, got)
		}
	}
	if want := reference(s); got != want {
		return fmt.Errorf("%q is escaped to %q instead of %q", s, got, want)
	}
	return nil
}

func texts(t *rapid.T, c *lib.Case) {
	var s string
	n := rapid.IntRange(0, 12).Draw(t, "pieces")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			s += string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes"))
		case 1:
			s += string(rapid.Rune().Draw(t, "rune"))
		case 2:
			s += rapid.SampledFrom([]string{"\n", "\r\n", "\x00", "\x1b[31m", "\x7f", "\\", "\\n", "\xff", "\xc3", "\xe2\x82", "é", "世", "😀", "\t"}).Draw(t, "special")
		case 3:
			s += strings.Repeat("a", lib.NumOr(t, 0, 5000, func() int { return rapid.SampledFrom([]int{0, 1, 23, 24, 25, 26, 40, 200, 1000, 5000}).Draw(t, "rep") }))
		default:
			s += lib.WordOr(t, func(string) bool { return true }, func() string { return rapid.StringMatching(`[ -~]{0,8}`).Draw(t, "ascii") })
		}
	}
	c.Logf("%q", s)
	if reference(s) != s {
		c.NonTrivial(s)
	}
	orig := strings.Clone(s)
	if err := judge(s); err != nil {
		c.Failf(t, "%v", err)
	}
	// results kept are not touched by what is escaped later
	first := http.Escape(s)
	other := rapid.SampledFrom([]string{"\x00\n" + s, s + "\x7f", strings.Repeat("\t", len(s)+1), "\n", ""}).Draw(t, "another")
	second := http.Escape(other)
	if first != reference(s) || second != reference(other) {
		c.Failf(t, "escaping %q changes what %q was escaped to: %q and %q", other, s, first, second)
	}
	if s != orig {
		c.Failf(t, "the text itself is changed to %q", s)
	}
}

func enumerate(t *testing.T) {
	lib.Enumerate(t, "pairs", func(check func(c *lib.Case, f func() error)) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(a), byte(b)})
				c := &lib.Case{}
				c.Logf("%q", s)
				check(c, func() error {
					c.NonTrivial(s)
					if b == 0 {
						if err := judge(s[:1]); err != nil {
							return err
						}
					}
					return judge(s)
				})
			}
		}
		lib.SetExhaustive()
	})
}
