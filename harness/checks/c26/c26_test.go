// C26: listen addresses are completed and classified correctly.
package c26

import (
	"fmt"
	"net"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/internal/address"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC26(t *testing.T) {
	lib.Run(t, "C26",
		lib.Prop{Name: "addresses", Quick: 20000, Fn: addresses},
	)
}

func genHost(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "kind") {
	case 7:
		return rapid.SampledFrom([]string{"www.", "localhost.", "127.0.0.1.", "a-"}).Draw(t, "unit") + strings.Repeat(rapid.SampledFrom([]string{"label.", "x", "1.2.3.4.", "0"}).Draw(t, "more"), rapid.IntRange(1, 60).Draw(t, "times")) +
			rapid.SampledFrom([]string{"com", "localhost", "127.0.0.1", "1"}).Draw(t, "end")
	case 0:
		return ""
	case 1:
		return lib.RandCase(t, "localhost")
	case 2:
		return fmt.Sprintf("%d.%d.%d.%d", rapid.Uint8().Draw(t, "a"), rapid.Uint8().Draw(t, "b"), rapid.Uint8().Draw(t, "c"), rapid.Uint8().Draw(t, "d"))
	case 3:
		return rapid.SampledFrom([]string{"localhosts", "localhos", "xlocalhost", "local.host", "localhost.", "www.localhost", "localhost.com", "LOCALHOST1", "loca1host",
			"1.2.3", "1.2.3.4.5", "256.1.1.1", "1.1.1.256", "01.2.3.4", "1.2.3.4x", "1.2.3.a", "1..2.3", ".1.2.3", "1.2.3.", "1234", "0x7f.0.0.1", "-1.2.3.4", "1.2.3.4 ", " 1.2.3.4", "localhost ", " localhost"}).Draw(t, "near miss")
	case 4:
		// an address with some edits
		s := rapid.SampledFrom([]string{"127.0.0.1", "localhost", "10.200.30.255"}).Draw(t, "base")
		at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		return s[:at] + rapid.SampledFrom([]string{"", ".", "0", "9", "l", "T"}).Draw(t, "ins") + s[at+rapid.IntRange(0, 1).Draw(t, "del"):]
	}
	return lib.WordOr(t, func(s string) bool {
		return lib.Only(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-") && lib.Only(s[:1], "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
	}, func() string {
		return rapid.StringMatching(`[a-zA-Z0-9]([a-zA-Z0-9.-]{0,10})`).Draw(t, "name")
	})
}

// isIPv4 is an independent dotted quad recogniser.
func isIPv4(s string) bool {
	parts := strings.Split(s, ".")
	if len(parts) != 4 {
		return false
	}
	for _, p := range parts {
		if len(p) == 0 || len(p) > 3 || len(p) > 1 && p[0] == '0' {
			return false
		}
		n := 0
		for i := 0; i < len(p); i++ {
			if p[i] < '0' || p[i] > '9' {
				return false
			}
			n = n*10 + int(p[i]-'0')
		}
		if n > 255 {
			return false
		}
	}
	return true
}

func addresses(t *rapid.T, c *lib.Case) {
	host := genHost(t)
	addr := host
	port := ""
	if host == "" || rapid.Bool().Draw(t, "port") {
		port = rapid.SampledFrom([]string{"0", "1", "80", "443", "8080", "65535", "http", "https", ""}).Draw(t, "number")
		addr += ":" + port
	}
	c.Logf("%q", addr)
	if host != "" || port != "" {
		c.NonTrivial(addr)
	}
	norm := address.Normalize(addr)
	if host != "" {
		if norm != addr {
			c.Failf(t, "normalized to %q", norm)
		}
	} else {
		h, p, err := net.SplitHostPort(norm)
		if err != nil || p != port {
			c.Failf(t, "normalized to %q: %v", norm, err)
		}
		if ip := net.ParseIP(h); ip == nil || !ip.IsUnspecified() {
			c.Failf(t, "normalized to %q, which isn't all the interfaces", norm)
		}
	}
	if again := address.Normalize(norm); again != norm {
		c.Failf(t, "normalized to %q, again to %q", norm, again)
	}
	if got, want := address.IsLocalhost(addr), strings.ToLower(host) == "localhost"; got != want {
		c.Failf(t, "IsLocalhost is %v", got)
	}
	if got, want := address.IsIP(addr), isIPv4(host); got != want {
		c.Failf(t, "IsIP is %v", got)
	}
}
