package lib

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The dictionary: string, character and number literals of the code under test, from which the
// generators draw now and then, as a fuzzer's dictionary. Literals that dict_base.json (the tree
// this harness was written against) doesn't have are drawn far more often: what a change compares
// its input with is most likely to be found in the change. The dictionary proposes inputs only;
// they pass the same filters as any other, and the verdict is the oracle's.

//go:embed dict_base.json
var dictBase []byte

// Dict is a set of literals.
type Dict struct {
	Words map[string]int `json:"words"`
	Nums  map[string]int `json:"nums"`
}

// Fresh is what the tree under check has more of than the base.
type Fresh struct {
	Words []string `json:"words"`
	Nums  []int    `json:"nums"`
}

var (
	baseWords, freshWords []string
	baseNums, freshNums   []int
)

func init() {
	var base Dict
	if err := json.Unmarshal(dictBase, &base); err != nil {
		panic(err)
	}
	baseWords, baseNums = base.lists()
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		// the draws of the replayed case are relative to the dictionary of that time
		var f struct {
			Dictionary Fresh `json:"dictionary"`
		}
		if data, err := os.ReadFile(path); err == nil && json.Unmarshal(data, &f) == nil {
			freshWords, freshNums = f.Dictionary.Words, f.Dictionary.Nums
		}
		return
	}
	if os.Getenv("VERIF_DICT") == "all" {
		freshWords, freshNums = baseWords, baseNums
		return
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	now := ReadDict(repo)
	diff := Dict{map[string]int{}, map[string]int{}}
	for w, n := range now.Words {
		if n > base.Words[w] {
			diff.Words[w] = n
		}
	}
	for w, n := range now.Nums {
		if n > base.Nums[w] {
			diff.Nums[w] = n
		}
	}
	freshWords, freshNums = diff.lists()
}

func (d Dict) lists() (words []string, nums []int) {
	for w := range d.Words {
		words = append(words, w)
	}
	for w := range d.Nums {
		if n, err := strconv.Atoi(w); err == nil {
			nums = append(nums, n)
		}
	}
	sort.Strings(words)
	sort.Ints(nums)
	return words, nums
}

// ReadDict collects the literals of a tree's non-test code.
func ReadDict(root string) Dict {
	d := Dict{map[string]int{}, map[string]int{}}
	_ = filepath.WalkDir(root, func(path string, e os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			switch e.Name() {
			case ".git", "examples", "testdata", "vendor":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		file, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				if v, ok := value(n); ok {
					d.Nums[strconv.Itoa(v)]++
				}
			case *ast.BasicLit:
				d.add(n)
			}
			return true
		})
		return nil
	})
	return d
}

// value evaluates products and the like of numbers.
func value(e ast.Expr) (int, bool) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return value(e.X)
	case *ast.BasicLit:
		if e.Kind == token.INT {
			n, err := strconv.ParseInt(e.Value, 0, 32)
			return int(n), err == nil
		}
	case *ast.BinaryExpr:
		x, ok := value(e.X)
		y, ok2 := value(e.Y)
		if !ok || !ok2 {
			return 0, false
		}
		n := -1
		switch e.Op {
		case token.MUL:
			n = x * y
		case token.ADD:
			n = x + y
		case token.SUB:
			n = x - y
		case token.SHL:
			if y < 31 {
				n = x << y
			}
		}
		return n, n >= 0 && n < 1<<31
	}
	return 0, false
}

func (d Dict) add(lit *ast.BasicLit) {
	switch lit.Kind {
	case token.STRING:
		s, err := strconv.Unquote(lit.Value)
		if err != nil || len(s) == 0 || len(s) > 64 || !utf8.ValidString(s) {
			return
		}
		d.Words[s]++
		pieces := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\r\n:,;=/&?%", r) })
		if len(pieces) < 6 {
			for _, p := range pieces {
				if p != s {
					d.Words[p]++
				}
			}
		}
	case token.CHAR:
		if s, err := strconv.Unquote(lit.Value); err == nil {
			d.Words[s]++
		}
	case token.INT:
		if n, err := strconv.ParseInt(lit.Value, 0, 32); err == nil && n >= 0 {
			d.Nums[strconv.Itoa(int(n))]++
		}
	}
}

// Peculiar returns what the tree has more of than the base, not too much of it.
func Peculiar() (words []string, nums []int) {
	return freshWords[:min(10, len(freshWords))], freshNums[:min(10, len(freshNums))]
}

// Hit decides whether to draw from the dictionary.
func Hit(t *rapid.T) bool {
	n := 23
	if len(freshWords)+len(freshNums) > 0 {
		n = 5
	}
	return rapid.IntRange(0, n).Draw(t, "dictionary") == n
}

// Word draws a word of the dictionary, or nearly one.
func Word(t *rapid.T) string {
	pool := baseWords
	if len(freshWords) > 0 && rapid.IntRange(0, 3).Draw(t, "fresh") < 3 {
		pool = freshWords
	}
	s := rapid.SampledFrom(pool).Draw(t, "word")
	const chars = "az09-_./AZ"
	switch rapid.IntRange(0, 9).Draw(t, "wordkind") {
	case 6:
		s += string(chars[rapid.IntRange(0, len(chars)-1).Draw(t, "char")])
	case 7:
		s = string(chars[rapid.IntRange(0, len(chars)-1).Draw(t, "char")]) + s
	case 8:
		s = RandCase(t, s)
	case 9:
		s += Noise(t, rapid.IntRange(1, 6).Draw(t, "tail"))
	}
	return s
}

// WordOr draws a word of the dictionary if it's time to and the word is acceptable, otherwise it generates.
func WordOr(t *rapid.T, ok func(string) bool, gen func() string) string {
	if Hit(t) {
		if s := Word(t); ok(s) {
			return s
		}
	}
	return gen()
}

// Segment draws a path segment of the dictionary if it's time to, otherwise it returns an empty string.
func Segment(t *rapid.T) string {
	return WordOr(t, func(s string) bool { return Only(s, nameChars) && !Only(s, ".") && len(s) < 100 }, func() string { return "" })
}

// Num draws a number of the dictionary or a neighbour of one, within the bounds.
func Num(t *rapid.T, lo, hi int) int {
	pool := baseNums
	if len(freshNums) > 0 && rapid.IntRange(0, 3).Draw(t, "fresh") < 3 {
		pool = freshNums
	}
	n := rapid.SampledFrom(pool).Draw(t, "number") + rapid.SampledFrom([]int{0, 0, 1, -1}).Draw(t, "neighbour")
	return max(lo, min(hi, n))
}

// NumOr draws a number of the dictionary if it's time to, otherwise it generates.
func NumOr(t *rapid.T, lo, hi int, gen func() int) int {
	if Hit(t) {
		return Num(t, lo, hi)
	}
	return gen()
}

// Only tells whether a string consists of the given characters, and isn't empty.
func Only(s, chars string) bool { return s != "" && strings.Trim(s, chars) == "" }

// Printable tells whether a string consists of visible ASCII.
func Printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] > '~' {
			return false
		}
	}
	return true
}
