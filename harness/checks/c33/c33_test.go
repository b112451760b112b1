// C33: JSON bodies and responses round-trip.
package c33

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/router/simple"
	"github.com/indigo-web/indigo/verif/lib"
	"pgregory.net/rapid"
)

func TestC33(t *testing.T) {
	lib.Run(t, "C33",
		lib.Prop{Name: "requests", Quick: 6000, Fn: requests},
		lib.Prop{Name: "responses", Quick: 6000, Fn: responses},
	)
}

type Inner struct {
	Name  string            `json:"name"`
	Score float64           `json:"score"`
	Tags  map[string]string `json:"tags"`
}

type Model struct {
	ID      int64             `json:"id"`
	Small   uint8             `json:"small"`
	Neg     int32             `json:"neg"`
	Big     uint64            `json:"big"`
	Title   string            `json:"title"`
	Flag    bool              `json:"flag"`
	Ratio   float64           `json:"ratio"`
	List    []string          `json:"list"`
	Numbers []int             `json:"numbers"`
	Map     map[string]int    `json:"map"`
	Inner   Inner             `json:"inner"`
	Ptr     *Inner            `json:"ptr"`
	Inners  []Inner           `json:"inners"`
	Omitted string            `json:"omitted,omitempty"`
	Bytes   []byte            `json:"bytes"`
	Any     any               `json:"any"`
	Nested  map[string][]bool `json:"nested"`
}

var textGen = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "text kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"\"", "\\", "a\nb", "\t", "é☃", "\u2028", "</script>", "{}", "[1,2", "null", "\x00", "\x1f", "\U0001F600", "a/b", "\\u0041", "a&b<c>"}).Draw(t, "special")
	case 2:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "\"", "é", "\n"}).Draw(t, "unit"), rapid.IntRange(1, 700).Draw(t, "times"))
	}
	if rapid.IntRange(0, 299).Draw(t, "huge") == 0 {
		return strings.Repeat(rapid.SampledFrom([]string{"lorem ipsum ", "\"quoted\" ", "\u00e9\t"}).Draw(t, "unit"), rapid.IntRange(1000, 8000).Draw(t, "times"))
	}
	return lib.WordOr(t, func(string) bool { return true }, func() string { return rapid.StringN(0, 12, -1).Draw(t, "string") })
})

var floatGen = rapid.Custom(func(t *rapid.T) float64 {
	f := rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1e21, 1e-9, 123456789.125, -2.5e-300, math.MaxFloat64, 3.0000000000000004, 1 << 53}).Draw(t, "float")
	if rapid.Bool().Draw(t, "any float") {
		f = rapid.Float64().Draw(t, "f")
	}
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 7
	}
	return f
})

func genInner(t *rapid.T) Inner {
	in := Inner{Name: textGen.Draw(t, "name"), Score: floatGen.Draw(t, "score")}
	if rapid.Bool().Draw(t, "tags") {
		in.Tags = rapid.MapOfN(textGen, textGen, 0, 3).Draw(t, "tagmap")
	}
	return in
}

func genAny(t *rapid.T, depth int) any {
	switch k := rapid.IntRange(0, 6).Draw(t, "any kind"); {
	case k == 0:
		return nil
	case k == 1:
		return rapid.Bool().Draw(t, "bool")
	case k == 2:
		return floatGen.Draw(t, "number")
	case k == 3 && depth > 0:
		m := map[string]any{}
		for i := rapid.IntRange(0, 3).Draw(t, "size"); i > 0; i-- {
			m[textGen.Draw(t, "key")] = genAny(t, depth-1)
		}
		return m
	case k == 4 && depth > 0:
		l := []any{}
		for i := rapid.IntRange(0, 3).Draw(t, "size"); i > 0; i-- {
			l = append(l, genAny(t, depth-1))
		}
		return l
	}
	return textGen.Draw(t, "text")
}

func genModel(t *rapid.T) *Model {
	m := &Model{
		ID: rapid.Int64().Draw(t, "id"), Small: rapid.Uint8().Draw(t, "small"), Neg: rapid.Int32().Draw(t, "neg"), Big: rapid.Uint64().Draw(t, "big"),
		Title: textGen.Draw(t, "title"), Flag: rapid.Bool().Draw(t, "flag"), Ratio: floatGen.Draw(t, "ratio"),
		Inner: genInner(t), Any: genAny(t, 2),
	}
	if rapid.Bool().Draw(t, "more") {
		m.List = rapid.SliceOfN(textGen, 0, 4).Draw(t, "list")
		m.Numbers = rapid.SliceOfN(rapid.Int(), 0, 4).Draw(t, "numbers")
		m.Map = rapid.MapOfN(textGen, rapid.Int(), 0, 4).Draw(t, "map")
		m.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
		m.Omitted = textGen.Draw(t, "omitted")
		for i := rapid.IntRange(0, 3).Draw(t, "inners"); i > 0; i-- {
			m.Inners = append(m.Inners, genInner(t))
		}
	}
	if rapid.Bool().Draw(t, "ptr") {
		in := genInner(t)
		m.Ptr = &in
	}
	return m
}

// genValue generates a value and makes an empty one of its type.
func genValue(t *rapid.T) (value any, fresh func() any) {
	switch rapid.IntRange(0, 4).Draw(t, "model") {
	case 0:
		v := genInner(t)
		return &v, func() any { return new(Inner) }
	case 1:
		v := map[string]any{}
		for i := rapid.IntRange(0, 4).Draw(t, "size"); i > 0; i-- {
			v[textGen.Draw(t, "key")] = genAny(t, 2)
		}
		return &v, func() any { return new(map[string]any) }
	case 2:
		v := rapid.SliceOfN(textGen, 0, 6).Draw(t, "strings")
		return &v, func() any { return new([]string) }
	}
	return genModel(t), func() any { return new(Model) }
}

func encode(t *rapid.T, v any) []byte {
	var doc []byte
	var err error
	if rapid.IntRange(0, 3).Draw(t, "indented") == 0 {
		doc, err = json.MarshalIndent(v, " ", "\t")
	} else {
		doc, err = json.Marshal(v)
	}
	if err != nil {
		panic(err)
	}
	return doc
}

type jreq struct {
	doc   []byte
	fresh func() any
	want  any
	bad   string // why the request must be refused
	typ   string
	twice bool
}

var foreign = []string{"text/plain", "application/xml", "text/json", "application/jsonx", "application/x-www-form-urlencoded", "json", "x", "application/jso", "application/json5", "text/html"}

func genJReq(t *rapid.T) *jreq {
	v, fresh := genValue(t)
	r := &jreq{doc: encode(t, v), fresh: fresh, typ: rapid.SampledFrom([]string{"", "application/json"}).Draw(t, "type"), twice: rapid.Bool().Draw(t, "twice")}
	switch rapid.IntRange(0, 9).Draw(t, "damage") {
	case 5:
		r.bad = "empty"
		r.doc = []byte(rapid.SampledFrom([]string{"", "", " ", "\n", " \t\r\n "}).Draw(t, "blank"))
	case 0:
		r.bad = "foreign content type"
		r.typ = rapid.SampledFrom(foreign).Draw(t, "foreign")
	case 1:
		r.bad = "truncated"
		end := bytes.TrimSpace(r.doc)
		if len(end) < 2 {
			// null and the like
			r.bad = ""
			break
		}
		if c := end[0]; c != '{' && c != '[' {
			r.bad = ""
			break
		}
		r.doc = end[:rapid.IntRange(1, len(end)-1).Draw(t, "cut")]
	case 2:
		r.bad = "trailing garbage"
		r.doc = append(r.doc, rapid.SampledFrom([]string{"x", " {}", "]", "}", "\n1", ",", "\"\"", " null", "\x00", "\x00\x00\x00", "\xef\xbb\xbf", "\x01", "\x1a", "\x7f", " \x00", "/", "//", "\v"}).Draw(t, "garbage")...)
	case 6:
		if lib.Hit(t) {
			if s := lib.Word(t); strings.IndexByte(" \t\r\n{[\"-0123456789tfn", s[0]) < 0 {
				r.bad = "not JSON"
				r.doc = append([]byte(s), r.doc...)
			}
		}
	case 3:
		r.bad = "not JSON"
		r.doc = []byte(rapid.SampledFrom([]string{"hello", "{name:1}", "{\"name\" 1}", "[1 2]", "{'name':1}", "<xml/>", "nul", "tru", "{\"id\":}", "{\"score\":--1}", "[\"a\",]", "{]", "[}", "\"unterminated"}).Draw(t, "text"))
	case 4:
		r.bad = "wrong types"
		r.doc = []byte(rapid.SampledFrom([]string{"\"text\"", "true", "12"}).Draw(t, "mismatch"))
	}
	if r.bad == "" {
		r.want = fresh()
		if err := json.Unmarshal(r.doc, r.want); err != nil {
			panic(err)
		}
	}
	return r
}

func requests(t *rapid.T, c *lib.Case) {
	var reqs []*jreq
	var wire []byte
	for i := rapid.IntRange(1, 3).Draw(t, "requests"); i > 0; i-- {
		r := genJReq(t)
		reqs = append(reqs, r)
		ar := &lib.Req{Method: "POST", Path: "/", RawPath: "/", Proto: "HTTP/1.1", EOL: "\r\n", Body: r.doc, Framing: lib.Length}
		if r.typ != "" {
			ar.Headers = append(ar.Headers, lib.Hdr{Name: "Content-Type", Pre: " ", Value: r.typ})
		}
		if rapid.IntRange(0, 2).Draw(t, "chunked") == 0 {
			ar.Framing = lib.Chunked
			ar.Chunks = lib.GenChunks(t, len(r.doc))
			ar.Headers = append(ar.Headers, lib.Hdr{Name: "Transfer-Encoding", Pre: " ", Value: "chunked"})
		} else {
			ar.Headers = append(ar.Headers, lib.Hdr{Name: "Content-Length", Pre: " ", Value: fmt.Sprint(len(r.doc))})
		}
		c.Logf("type %q, %s, refused because: %q", r.typ, lib.Q(r.doc), r.bad)
		wire = append(wire, ar.Bytes()...)
	}
	cfg := config.Default()
	if last := reqs[len(reqs)-1]; last.bad != "foreign content type" && rapid.IntRange(0, 4).Draw(t, "toolarge") == 0 {
		longest := 0
		for _, r := range reqs[:len(reqs)-1] {
			longest = max(longest, len(r.doc))
		}
		if longest < len(last.doc) {
			last.bad = "too large"
			cfg.Body.MaxSize = uint(rapid.IntRange(longest, len(last.doc)-1).Draw(t, "maxsize"))
			c.Logf("the last one is too large: at most %d", cfg.Body.MaxSize)
		}
	}
	var problem error
	fail := func(format string, args ...any) {
		if problem == nil {
			problem = fmt.Errorf(format, args...)
		}
	}
	k := 0
	models := make([]any, len(reqs))
	handler := func(req *http.Request) *http.Response {
		i := k
		k++
		r := reqs[i]
		times := 1
		if r.twice {
			times = 2
		}
		for n := 0; n < times; n++ {
			model := r.fresh()
			err := req.JSON(model)
			if r.bad != "" {
				if err == nil {
					fail("request %d (%s): no error, decoded to %+v", i, r.bad, show(model))
				}
				if r.bad == "foreign content type" && !errors.Is(err, status.ErrUnsupportedMediaType) {
					fail("request %d: a foreign content type gives %v", i, err)
				}
				if r.bad == "too large" && !errors.Is(err, status.ErrBodyTooLarge) {
					fail("request %d: a too large document gives %v", i, err)
				}
				continue
			}
			if err != nil {
				fail("request %d: %v", i, err)
				continue
			}
			models[i] = model
			if !reflect.DeepEqual(model, r.want) {
				fail("request %d: decoded to %s instead of %s", i, show(model), show(r.want))
			}
		}
		return http.String(req, "done")
	}
	rt := simple.New(handler, func(req *http.Request) *http.Response { return http.Error(req, req.Env.Error) }).Initialize()
	conn := lib.NewConn(lib.Split(wire, lib.GenCuts(t, len(wire))))
	if msg := lib.Serve(cfg, conn, encryption.Plain, lib.Quiet{Router: rt}); msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	if problem != nil {
		c.Failf(t, "%v", problem)
	}
	if k != len(reqs) {
		c.Failf(t, "%d of %d requests are handled", k, len(reqs))
	}
	good := 0
	for i, r := range reqs {
		if r.bad != "" {
			c.Class(r.bad)
			continue
		}
		good++
		if !reflect.DeepEqual(models[i], r.want) {
			c.Failf(t, "request %d: the model became %s, it was %s", i, show(models[i]), show(r.want))
		}
	}
	if good > 0 {
		c.NonTrivial(string(wire))
	}
}

func show(v any) string {
	b, _ := json.Marshal(v)
	return lib.Q(b)
}

var unencodable = []any{
	make(chan int), func() {}, map[string]any{"a": 1, "b": make(chan int)}, []any{1, "x", func() {}}, math.Inf(1), &struct{ A, B any }{1, func() {}},
}

func responses(t *rapid.T, c *lib.Case) {
	type built struct {
		value   any
		fresh   func() any
		code    int
		header  bool
		before  int
		mem     []byte
		copy    []byte
		try     bool
		byValue bool
		other   []string // encoded into another response before this one is sent
		bad     bool     // can't be encoded
		err     error
	}
	var bs []*built
	var wire []byte
	n := rapid.IntRange(1, 3).Draw(t, "responses")
	for i := 0; i < n; i++ {
		b := &built{code: rapid.SampledFrom([]int{200, 201, 404}).Draw(t, "code"), header: rapid.Bool().Draw(t, "header"), before: rapid.IntRange(0, 5).Draw(t, "before"), try: rapid.Bool().Draw(t, "try"), byValue: rapid.Bool().Draw(t, "by value")}
		b.value, b.fresh = genValue(t)
		if b.bad = rapid.IntRange(0, 7).Draw(t, "not encodable") == 0; b.bad {
			b.value = rapid.SampledFrom(unencodable).Draw(t, "bad value")
			b.byValue = false
			c.Class("not encodable")
		}
		if rapid.IntRange(0, 2).Draw(t, "other response") == 0 {
			b.other = make([]string, rapid.SampledFrom([]int{1, 100, 5000}).Draw(t, "others"))
		}
		b.mem = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "memory")
		if rapid.IntRange(0, 3).Draw(t, "more memory") == 0 {
			b.mem = append(b.mem, lib.Noise(t, lib.NumOr(t, 1, 100_000, func() int {
				return rapid.SampledFrom([]int{200, 1000, 1024, 4096, 5000, 70_000}).Draw(t, "memory size")
			}))...)
		}
		b.copy = append([]byte(nil), b.mem...)
		bs = append(bs, b)
		c.Logf("JSON of %s, body set before by %d: %s", show(b.value), b.before, lib.Q(b.mem))
		wire = append(wire, "GET / HTTP/1.1\r\n\r\n"...)
	}
	k := 0
	var problem error
	handler := func(req *http.Request) *http.Response {
		b := bs[k]
		k++
		r := req.Respond()
		switch b.before {
		case 1:
			r.Bytes(b.mem[:len(b.mem)/2])
		case 2:
			r.Bytes(b.mem)
		case 3:
			r.String(string(b.copy))
		case 4:
			_, _ = r.Write(b.mem)
		case 5:
			r.JSON(map[string]string{"previous": string(b.copy)}).ContentType("text/plain")
		}
		if b.header {
			r.Header("X-Custom", "value")
		}
		r.Code(status.Code(b.code))
		v := b.value
		if b.byValue {
			v = reflect.ValueOf(v).Elem().Interface()
		}
		if b.try {
			resp, err := r.TryJSON(v)
			if b.err = err; err != nil && !b.bad {
				problem = err
			}
			r = resp
		} else {
			r = r.JSON(v)
		}
		if b.other != nil {
			http.NewResponse().JSON(b.other)
		}
		return r
	}
	rt := simple.New(handler, func(req *http.Request) *http.Response { return http.Error(req, req.Env.Error) }).Initialize()
	conn := lib.NewConn(lib.Split(wire, nil))
	if msg := lib.Serve(config.Default(), conn, encryption.Plain, lib.Quiet{Router: rt}); msg != "" {
		c.Failf(t, "panic: %s", msg)
	}
	if problem != nil {
		c.Failf(t, "TryJSON: %v", problem)
	}
	finals, _, err := lib.ParseAll(conn.Out, make([]bool, n))
	if err != nil || len(finals) != n {
		c.Failf(t, "%d responses of %d: %v", len(finals), n, err)
	}
	for i, b := range bs {
		r := finals[i]
		if !bytes.Equal(b.mem, b.copy) {
			c.Failf(t, "response %d: memory of the previous body is overwritten: %s became %s", i, lib.Q(b.copy), lib.Q(b.mem))
		}
		if b.bad {
			if b.try && b.err == nil {
				c.Failf(t, "response %d: no error by TryJSON", i)
			}
			if !b.try && r.Code != 500 {
				c.Failf(t, "response %d: code %d for a value which can't be encoded: %s", i, r.Code, lib.Q(r.Body))
			}
			continue
		}
		if r.Code != b.code {
			c.Failf(t, "response %d: code %d instead of %d", i, r.Code, b.code)
		}
		ct, err := r.One("Content-Type")
		if mt, _, _ := strings.Cut(ct, ";"); err != nil || strings.TrimSpace(mt) != "application/json" {
			c.Failf(t, "response %d: content type %q (%v)", i, ct, err)
		}
		if h := r.Get("X-Custom"); b.header != (len(h) == 1) {
			c.Failf(t, "response %d: header X-Custom: %q", i, h)
		}
		got, want := b.fresh(), b.fresh()
		ref, err := json.Marshal(b.value)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(ref, want); err != nil {
			panic(err)
		}
		if err := json.Unmarshal(r.Body, got); err != nil {
			c.Failf(t, "response %d: %v in %s", i, err, lib.Q(r.Body))
		}
		if !reflect.DeepEqual(got, want) {
			c.Failf(t, "response %d: %s decodes to another value than %s", i, lib.Q(r.Body), lib.Q(ref))
		}
		if b.before > 0 {
			c.Class("a body was set before")
		}
		c.NonTrivial(show(b.value), b.before, b.code)
	}
}
