// C36: the string map returns the first value inserted under a key.
package c36

import (
	"fmt"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/internal/strlenmap"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC36(t *testing.T) {
	lib.Run(t, "C36",
		lib.Prop{Name: "histories", Quick: 12000, Fn: histories},
	)
}

func genKey(t *rapid.T, used []string) string {
	switch k := rapid.IntRange(0, 7).Draw(t, "kind"); {
	case k < 2 && len(used) > 0:
		return rapid.SampledFrom(used).Draw(t, "again")
	case k == 2 && len(used) > 0:
		// differs in one byte, or in length by one
		s := rapid.SampledFrom(used).Draw(t, "near")
		at := rapid.IntRange(0, len(s)).Draw(t, "at")
		switch rapid.IntRange(0, 2).Draw(t, "edit") {
		case 0:
			return s[:at] + "~" + s[at:]
		case 1:
			if at < len(s) {
				return s[:at] + s[at+1:]
			}
		default:
			if at < len(s) {
				return s[:at] + "~" + s[at+1:]
			}
		}
		return s + "~"
	case k == 3:
		return strings.Repeat(rapid.SampledFrom([]string{"a", "b", "\x00"}).Draw(t, "rep"), rapid.SampledFrom([]int{0, 1, 2, 31, 32, 63, 64, 127, 128, 255, 256, 300}).Draw(t, "len"))
	case k == 4:
		return rapid.SampledFrom([]string{"", "A", "a", "Ab", "ab", "aB", "AB"}).Draw(t, "case")
	case k == 5:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes"))
	}
	if lib.Hit(t) {
		if rapid.Bool().Draw(t, "words") {
			return lib.Word(t)
		}
		return lib.Noise(t, lib.Num(t, 0, 600))
	}
	return rapid.StringMatching(`[ab]{0,4}`).Draw(t, "key")
}

func histories(t *rapid.T, c *lib.Case) {
	m := strlenmap.New[int]()
	model := map[string]int{}
	lens := map[int]int{}
	var used []string
	n := rapid.IntRange(1, 40).Draw(t, "ops")
	crowded := rapid.IntRange(0, 19).Draw(t, "crowded") == 19
	if crowded {
		// many keys of the same length
		n = rapid.IntRange(40, 300).Draw(t, "more ops")
	}
	trace := ""
	clash := false
	for i := 1; i <= n; i++ {
		key := ""
		if crowded && rapid.IntRange(0, 7).Draw(t, "short") > 0 {
			key = fmt.Sprintf("%03d", rapid.IntRange(0, n).Draw(t, "number"))
		} else {
			key = genKey(t, used)
		}
		if rapid.IntRange(0, 2).Draw(t, "op") < 2 {
			c.Logf("Insert(%q, %d)", key, i)
			m.Insert(key, i)
			if _, found := model[key]; !found {
				model[key] = i
			}
			lens[len(key)]++
			clash = clash || lens[len(key)] > 1
			used = append(used, key)
			trace += fmt.Sprintf("%q", key)
		}
		c.Logf("Get(%q)", key)
		got, found := m.Get(key)
		want, has := model[key]
		if found != has || got != want {
			c.Failf(t, "Get(%q) is %d, %v instead of %d, %v", key, got, found, want, has)
		}
	}
	if clash {
		c.NonTrivial(trace)
	}
	for _, key := range append(used, "", "never", strings.Repeat("x", 1000)) {
		for _, k := range []string{key, key + "\x00", key + key, strings.ToUpper(key)} {
			got, found := m.Get(k)
			want, has := model[k]
			if found != has || got != want {
				c.Failf(t, "at the end, Get(%q) is %d, %v instead of %d, %v", k, got, found, want, has)
			}
		}
	}
}
