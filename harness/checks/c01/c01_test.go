// C01: how TCP splits the byte stream never changes what the server does.
package c01

import (
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC01(t *testing.T) {
	lib.Run(t, "C01",
		lib.Prop{Name: "streams", Quick: 6000, Fn: func(t *rapid.T, c *lib.Case) { segmentation(t, c, genCfg(t, false)) }},
		lib.Prop{Name: "limits", Quick: 3000, Fn: func(t *rapid.T, c *lib.Case) { segmentation(t, c, genCfg(t, true)) }},
		lib.Prop{Name: "large", Quick: 600, Fn: func(t *rapid.T, c *lib.Case) {
			opts := opts
			opts.Big = 2
			segments(t, c, genCfg(t, false), opts)
		}},
		lib.Prop{Name: "everysplit", Quick: 250, Fn: func(t *rapid.T, c *lib.Case) {
			data, _, _ := lib.GenStream(t, opts, 2)
			everySplit(t, c, data)
		}},
		lib.Prop{Name: "oddities", Quick: 2500, Fn: func(t *rapid.T, c *lib.Case) { everySplit(t, c, lib.GenOdd(t, 2)) }},
	)
}

func genCfg(t *rapid.T, tight bool) config.Config {
	cfg := config.Default()
	if tight {
		cfg.URL.BufferSize.Default = 1
		cfg.URL.BufferSize.Maximal = rapid.IntRange(4, 40).Draw(t, "urlmax")
		cfg.Headers.Number.Maximal = rapid.IntRange(0, 6).Draw(t, "hnum")
		cfg.Headers.MaxKeyLength = rapid.IntRange(1, 20).Draw(t, "keylen")
		cfg.Headers.MaxValueLength = rapid.IntRange(1, 30).Draw(t, "vallen")
		cfg.Headers.KeySpace.Default = 1
		cfg.Headers.KeySpace.Maximal = rapid.IntRange(5, 80).Draw(t, "keyspace")
		cfg.Headers.ValueSpace.Default = 1
		cfg.Headers.ValueSpace.Maximal = rapid.IntRange(5, 80).Draw(t, "valspace")
		cfg.Headers.MaxEncodingTokens = rapid.IntRange(1, 3).Draw(t, "toks")
		cfg.Body.MaxSize = uint(rapid.IntRange(0, 40).Draw(t, "maxbody"))
		cfg.Body.MaxChunkSize = int64(rapid.IntRange(1, 30).Draw(t, "maxchunk"))
	}
	return cfg
}

var opts = lib.GenOpts{UpgradeH1: true}

func run(cfg config.Config, segs [][]byte, withLast bool, hows []int) lib.Outcome {
	conn := lib.NewConn(segs)
	conn.WithLast = withLast
	return lib.Observe(cfg, conn, func(i int) int { return hows[i%len(hows)] })
}

func genHows(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(-1, 4), 1, 4).Draw(t, "hows")
}

func segmentation(t *rapid.T, c *lib.Case, cfg config.Config) { segments(t, c, cfg, opts) }

func segments(t *rapid.T, c *lib.Case, cfg config.Config, opts lib.GenOpts) {
	data, _, damaged := lib.GenStream(t, opts, 3)
	hows := genHows(t)
	whole := cfg
	whole.TCP.ReadBufferSize = len(data) + 1
	want := run(whole, [][]byte{data}, false, hows)
	cuts := lib.GenCuts(t, len(data))
	cfg.TCP.ReadBufferSize = rapid.SampledFrom([]int{1, 2, 3, 7, 16, 64, 4096}).Draw(t, "readbuf")
	withLast := rapid.Bool().Draw(t, "withlast")
	c.Logf("stream %s\ncuts %v readbuf %d withlast %v body reading %v cfg %+v", lib.Q(data), cuts, cfg.TCP.ReadBufferSize, withLast, hows, cfg)
	got := run(cfg, lib.Split(data, cuts), withLast, hows)
	if d := want.Diff(got); d != "" {
		c.Failf(t, "unsplit versus split: %s", d)
	}
	if got.Panic != "" {
		c.Failf(t, "serving panicked: %s", got.Panic)
	}
	if damaged {
		c.Class("damaged")
	}
	if len(want.Views) > 0 {
		c.Class("dispatched")
	}
	if len(cuts) > 0 || cfg.TCP.ReadBufferSize < len(data) {
		c.NonTrivial(string(data), cuts, cfg.TCP.ReadBufferSize)
	}
}

// everySplit cuts one stream in two at every offset.
func everySplit(t *rapid.T, c *lib.Case, data []byte) {
	hows := genHows(t)
	cfg := config.Default()
	want := run(cfg, [][]byte{data}, false, hows)
	c.Logf("stream %s body reading %v", lib.Q(data), hows)
	for i := 1; i < len(data); i++ {
		got := run(cfg, [][]byte{data[:i], data[i:]}, false, hows)
		if d := want.Diff(got); d != "" {
			c.Failf(t, "cut at %d of %s: %s", i, lib.Q(data), d)
		}
	}
	bytewise := make([][]byte, 0, len(data))
	for i := range data {
		bytewise = append(bytewise, data[i:i+1])
	}
	if d := want.Diff(run(cfg, bytewise, false, hows)); d != "" {
		c.Failf(t, "byte by byte: %s", d)
	}
	if len(want.Views) > 0 {
		c.Class("dispatched")
	}
	c.NonTrivial(string(data))
}
