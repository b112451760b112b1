// C21: header value accessors split value and parameters correctly.
package c21

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC21(t *testing.T) {
	lib.Run(t, "C21",
		lib.Prop{Name: "values", Quick: 20000, Fn: values},
	)
}

var names = []string{"charset", "q", "boundary", "xcharset", "charsetx", "qq", "level", "a", "ab", "b", "name", "filename", "char", "x-q", "q0"}

var mains = []string{"text/html", "", "*/*", "a", "text/plain charset=utf-8", "charset=evil", "q=0.3", "form-data", "x=y", "a=b"}

// oneDigit: a quality from 0.0 to 0.9.
func oneDigit(v string) bool {
	return len(v) == 3 && strings.HasPrefix(v, "0.") && v[2] >= '0' && v[2] <= '9'
}

func values(t *rapid.T, c *lib.Case) {
	main := lib.WordOr(t, func(s string) bool { return lib.Printable(s) && !strings.Contains(s, ";") }, func() string {
		return rapid.SampledFrom(mains).Draw(t, "main")
	})
	if rapid.IntRange(0, 9).Draw(t, "long main") == 0 {
		main += strings.Repeat("m", rapid.IntRange(1, 1000).Draw(t, "main length"))
	}
	s := main
	params := map[string]string{}
	n := rapid.IntRange(0, 4).Draw(t, "params")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n = 40
	}
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(names).Draw(t, "name")
		if _, ok := params[name]; ok {
			continue // which one wins isn't specified
		}
		var value string
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 4:
			value = strings.Repeat(rapid.SampledFrom([]string{"x", "ab=", "q=0.5 ", "long,"}).Draw(t, "unit"), rapid.SampledFrom([]int{5, 20, 64, 100, 1000}).Draw(t, "times"))
		case 0:
			value = fmt.Sprintf("0.%d", rapid.IntRange(0, 9).Draw(t, "q"))
		case 1:
			value = rapid.SampledFrom([]string{"", "utf-8", "\"quoted\"", "x=y", "charset=y", "q=0.1", "a b", ",", "windows-1251", "x,charset=z", "x,q=0.3", "\"x,charset=z\"", "a,b=c"}).Draw(t, "value")
		default:
			value = lib.WordOr(t, func(s string) bool { return lib.Printable(s) && !strings.Contains(s, ";") }, func() string {
				return rapid.StringMatching(`[a-zA-Z0-9_.-]{0,10}`).Draw(t, "value")
			})
		}
		if name == "q" && rapid.IntRange(0, 2).Draw(t, "not a quality") == 0 {
			// the documented default applies to these
			value = rapid.SampledFrom([]string{"1", "1.0", "0.x", "0.", "0.5x", "0.=", "x", "", "0. 5", "0.0x1"}).Draw(t, "bad quality")
		} else if name == "q" && !oneDigit(value) {
			continue // only one-digit qualities are specified
		}
		params[name] = value
		s += ";" + rapid.SampledFrom([]string{"", "", " ", "  ", "\t"}).Draw(t, "blank") + name + "=" + value
	}
	c.Logf("%q", s)
	if len(params) > 0 {
		c.NonTrivial(s)
	}
	if got := headers.ValueOf(s); got != main {
		c.Failf(t, "ValueOf is %q instead of %q", got, main)
	}
	for _, name := range names {
		want, has := params[name]
		if got := headers.ParamOf(s, name); got != want {
			c.Failf(t, "ParamOf(%q) is %q instead of %q", name, got, want)
		}
		if !has {
			want = "the default"
		}
		if got := headers.ParamOfOr(s, name, "the default"); got != want {
			c.Failf(t, "ParamOfOr(%q) is %q instead of %q", name, got, want)
		}
	}
	charset, has := params["charset"]
	if !has {
		charset = "iso-8859-1"
	}
	if got := headers.CharsetOf(s); got != charset {
		c.Failf(t, "CharsetOf is %q instead of %q", got, charset)
	}
	q := 9
	if v, has := params["q"]; has && oneDigit(v) {
		q = int(v[2] - '0')
	}
	if got := headers.QualityOf(s); got != q {
		c.Failf(t, "QualityOf is %d instead of %d", got, q)
	}
}
