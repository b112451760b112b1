// Package lib is the shared machinery of the checks: running properties with rapid, counting
// what was explored, saving failures, and talking HTTP/1 to the real server code in memory.
package lib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property: a function over generated choices.
type Prop struct {
	Name string
	// Quick and Thorough are how many cases each worker process generates.
	Quick, Thorough int
	Fn              func(t *rapid.T, c *Case)
}

// Result is what one worker process reports to the driver.
type Result struct {
	ID          string         `json:"id"`
	Evaluations int            `json:"evaluations"`
	Hashes      []uint64       `json:"hashes"`
	Samples     []string       `json:"samples"`
	PerProp     map[string]int `json:"per_prop"`
	Skipped     map[string]int `json:"skipped"`
	Exhaustive  bool           `json:"exhaustive"`
	Notes       []string       `json:"notes"`
	Classes     map[string]int `json:"classes"`
	Failures    []Failure      `json:"failures"`
	Done        bool           `json:"done"`
}

// Failure is a (shrunk) counterexample.
type Failure struct {
	Sub      string `json:"sub"`
	Case     string `json:"case"`
	Error    string `json:"error"`
	FailFile string `json:"rapid_failfile"`
	Known    string `json:"known,omitempty"`
	// Dictionary is what of the dictionary was peculiar to the tree: the draws depend on it.
	Dictionary *Fresh `json:"dictionary,omitempty"`
}

var (
	mu      sync.Mutex
	res     Result
	hashes  = map[uint64]struct{}{}
	last    *Failure
	started time.Time

	caseMu    sync.Mutex
	caseStart time.Time
	caseRef   *Case
	caseSub   string
)

// Case describes one generated case.
type Case struct {
	sub  string
	desc strings.Builder
	nt   bool
	hash uint64
	err  string
	mu   sync.Mutex
}

// Logf appends to the description of the case, which is part of the replay file and samples.
func (c *Case) Logf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.desc.Len() > 60_000 {
		return
	}
	fmt.Fprintf(&c.desc, format, args...)
	c.desc.WriteByte('\n')
}

// NonTrivial marks the case as non-trivial; the key identifies it among distinct cases.
func (c *Case) NonTrivial(key ...any) {
	h := fnv.New64a()
	h.Write([]byte(c.sub))
	for _, k := range key {
		fmt.Fprintf(h, "|%v", k)
	}
	c.nt = true
	c.hash = h.Sum64()
}

// Class counts the case under a label, reported in the evidence.
func (c *Case) Class(label string) {
	mu.Lock()
	res.Classes[label]++
	mu.Unlock()
}

// Failf reports a violation of the property on this case.
func (c *Case) Failf(t *rapid.T, format string, args ...any) {
	t.Helper()
	c.err = fmt.Sprintf(format, args...)
	t.Fatalf("%s", c.err)
}

// Breadcrumb stores the case before running it, for failures that kill the process.
func (c *Case) Breadcrumb() {
	path := os.Getenv("VERIF_BREADCRUMB")
	if path == "" {
		return
	}
	c.mu.Lock()
	text := c.desc.String()
	c.mu.Unlock()
	_ = os.WriteFile(path, []byte(c.sub+"\n"+text), 0o644)
}

// Thorough tells whether the deep tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed is the worker's seed, never zero.
func Seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_WORKER_SEED"), 10, 64)
	if n == 0 {
		n = 0x9e3779b97f4a7c15
	}
	return n
}

func softDeadline() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_SOFT_S")); err == nil && n > 0 {
		return time.Duration(n) * time.Second
	}
	return 10 * time.Minute
}

// Note adds a line to the evidence.
func Note(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	res.Notes = append(res.Notes, fmt.Sprintf(format, args...))
}

// SetExhaustive marks that (part of) the space was enumerated completely.
func SetExhaustive() { res.Exhaustive = true }

const hangAfter = 90 * time.Second

// Run decides a list of properties.
func Run(t *testing.T, id string, props ...Prop) {
	started = time.Now()
	res = Result{ID: id, PerProp: map[string]int{}, Skipped: map[string]int{}, Classes: map[string]int{}}
	replay := loadReplay(t)

	go watchdog()
	defer flush()

	for i, p := range props {
		if only := os.Getenv("VERIF_ONLY"); only != "" && only != p.Name {
			continue
		}
		if replay != nil && replay.Sub != p.Name {
			continue
		}
		n := p.Quick
		if Thorough() {
			n = p.Thorough
			if n == 0 {
				n = p.Quick * 20
			}
		}
		if scale, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && scale > 0 {
			n = int(float64(n)*scale) + 1
		}
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		seed := Seed()*1_000_003 + uint64(i)*7919 + 1
		must(flag.Set("rapid.seed", strconv.FormatUint(seed|1, 10)))
		must(flag.Set("rapid.shrinktime", "20s"))
		p := p
		last = nil
		ok := t.Run(p.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) { one(rt, p) })
		})
		endCase()
		if !ok {
			f := Failure{Sub: p.Name, Error: "failed"}
			if last != nil {
				f = *last
			}
			f.FailFile = newestFailFile()
			res.Failures = append(res.Failures, f)
			flush()
		}
	}
	res.Done = true
}

func one(rt *rapid.T, p Prop) {
	if time.Since(started) > softDeadline() {
		res.Skipped[p.Name]++
		return
	}
	c := &Case{sub: p.Name}
	beginCase(c)
	defer func() {
		if r := recover(); r != nil {
			kind := fmt.Sprintf("%T", r)
			if !strings.Contains(kind, "invalidData") {
				msg := c.err
				if msg == "" {
					msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
				last = &Failure{Sub: p.Name, Case: c.desc.String(), Error: msg}
			}
			panic(r)
		}
	}()
	p.Fn(rt, c)
	count(p.Name, c)
}

func count(sub string, c *Case) {
	mu.Lock()
	defer mu.Unlock()
	res.Evaluations++
	res.PerProp[sub]++
	if !c.nt {
		return
	}
	if _, seen := hashes[c.hash]; seen {
		return
	}
	hashes[c.hash] = struct{}{}
	n := res.PerProp[sub]
	if n == 3 || n == 40 || n == 200 {
		d := c.desc.String()
		if len(d) > 900 {
			d = d[:900] + "..."
		}
		res.Samples = append(res.Samples, sub+": "+d)
	}
}

// Enumerate runs a property over an explicit finite list of cases (no generator).
func Enumerate(t *testing.T, sub string, fn func(check func(c *Case, f func() error))) {
	if only := os.Getenv("VERIF_ONLY"); only != "" && only != sub {
		return
	}
	// one process is enough for a fixed list
	if w := os.Getenv("VERIF_WORKER"); w != "" && w != "0" {
		return
	}
	failed := false
	fn(func(c *Case, f func() error) {
		if failed {
			return
		}
		c.sub = sub
		beginCase(c)
		defer endCase()
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
			}()
			return f()
		}()
		if err != nil {
			failed = true
			mu.Lock()
			res.Failures = append(res.Failures, Failure{Sub: sub, Case: c.desc.String(), Error: err.Error()})
			mu.Unlock()
			t.Errorf("%s: %s: %v", sub, c.desc.String(), err)
			flush()
			return
		}
		count(sub, c)
	})
}

// RunMore is Run followed by extra (non-rapid) parts sharing the same result.
func RunMore(t *testing.T, id string, extra func(t *testing.T), props ...Prop) {
	Run(t, id, props...)
	if os.Getenv("VERIF_REPLAY") == "" || os.Getenv("VERIF_REPLAY_ENUM") != "" {
		res.Done = false
		extra(t)
		res.Done = true
	}
	flush()
}

func beginCase(c *Case) {
	caseMu.Lock()
	caseStart, caseRef, caseSub = time.Now(), c, c.sub
	caseMu.Unlock()
}

func endCase() {
	caseMu.Lock()
	caseRef = nil
	caseMu.Unlock()
}

// maxHeap is far above what any case needs.
const maxHeap = 3 << 30

func watchdog() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		caseMu.Lock()
		c, since := caseRef, time.Since(caseStart)
		caseMu.Unlock()
		if c == nil {
			continue
		}
		metrics.Read(heap)
		used := heap[0].Value.Uint64()
		what := fmt.Sprintf("no progress for %s", hangAfter)
		if used > maxHeap {
			what = fmt.Sprintf("memory grows without bound: %d MB after %s", used>>20, since)
		} else if since < hangAfter {
			continue
		}
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		c.mu.Lock()
		text := c.desc.String()
		c.mu.Unlock()
		mu.Lock()
		res.Failures = append(res.Failures, Failure{
			Sub: c.sub, Case: text,
			Error: fmt.Sprintf("%s\n%s", what, buf),
		})
		mu.Unlock()
		flush()
		os.Exit(42)
	}
}

func flush() {
	mu.Lock()
	defer mu.Unlock()
	path := os.Getenv("VERIF_OUT")
	if path == "" {
		return
	}
	res.Hashes = res.Hashes[:0]
	for h := range hashes {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	for i := range res.Failures {
		res.Failures[i].Dictionary = &Fresh{freshWords, freshNums}
	}
	b, err := json.Marshal(&res)
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

func loadReplay(t *testing.T) *Failure {
	path := os.Getenv("VERIF_REPLAY")
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	must(err)
	var f Failure
	must(json.Unmarshal(b, &f))
	if f.FailFile != "" {
		tmp := filepath.Join(t.TempDir(), "replay.fail")
		// the comments may be longer than rapid is able to read
		var lines []string
		for _, line := range strings.Split(f.FailFile, "\n") {
			if !strings.HasPrefix(line, "#") {
				lines = append(lines, line)
			}
		}
		must(os.WriteFile(tmp, []byte(strings.Join(lines, "\n")), 0o644))
		must(flag.Set("rapid.failfile", tmp))
	}
	return &f
}

func newestFailFile() string {
	var best string
	var bt time.Time
	_ = filepath.Walk("testdata", func(path string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(path, ".fail") && info.ModTime().After(bt) {
			best, bt = path, info.ModTime()
		}
		return nil
	})
	if best == "" {
		return ""
	}
	b, _ := os.ReadFile(best)
	return string(b)
}

// trimStack keeps the frames of the code under test, without addresses, so that the text of the
// same failure is always the same.
func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		fn := lines[i]
		if !strings.HasPrefix(lines[i+1], "\t") || !strings.Contains(fn, "indigo") || strings.Contains(fn, "indigo/verif") {
			continue
		}
		loc := strings.TrimSpace(lines[i+1])
		if sp := strings.LastIndexByte(loc, ' '); sp != -1 {
			loc = loc[:sp]
		}
		out = append(out, "  at "+loc)
	}
	if len(out) == 0 {
		return string(b)
	}
	return strings.Join(out, "\n")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Catch runs f and returns a panic as an error text.
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(strings.TrimPrefix(fmt.Sprintf("%T", r), "*"), "rapid.") {
				panic(r) // the generator's own way to end a case
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

// Q quotes data for descriptions, shortened in the middle.
func Q(b []byte) string {
	if len(b) > 3000 {
		return strconv.Quote(string(b[:1500])) + fmt.Sprintf(" ...(%d bytes)... ", len(b)-3000) + strconv.Quote(string(b[len(b)-1500:]))
	}
	return strconv.Quote(string(b))
}

// Known tells whether the behaviour is listed as an open known finding; if so, its occurrence is
// noted for the driver to print and the caller tolerates it.
func Known(id string) bool {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == id {
			mu.Lock()
			note := "KNOWN " + id
			for _, n := range res.Notes {
				if n == note {
					mu.Unlock()
					return true
				}
			}
			res.Notes = append(res.Notes, note)
			mu.Unlock()
			return true
		}
	}
	return false
}
