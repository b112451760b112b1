// mutgen FILE...: prints one JSON line per mutant of each Go file (file, offset, end, new text, operator, line).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string `json:"file"`
	From, To int
	New, Op  string
	Line     int
	Old      string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		pos := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, repl, op string) {
			a, b := pos(from), pos(to)
			old := string(src[a:b])
			if old == repl {
				return
			}
			if len(old) > 80 {
				old = old[:80]
			}
			enc.Encode(mut{f, a, b, repl, op, fs.Position(from).Line, old})
		}
		text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&"},
			token.SHL: {">>"}, token.SHR: {"<<"},
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range swaps[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "binop")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left-only")
					emit(x.Pos(), x.End(), text(x.Y), "right-only")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop-not")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int-1")
						}
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\''); err == nil {
						emit(x.Pos(), x.End(), strconv.QuoteRune(v+1), "char+1")
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && len(v) > 0 {
						emit(x.Pos(), x.End(), strconv.Quote(v[:len(v)-1]), "str-cut")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always")
			case *ast.BlockStmt:
				for _, s := range x.List {
					delStmt(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					delStmt(s, emit)
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					emit(x.Low.Pos(), x.Low.End(), "", "slice-low")
				}
				if x.High != nil && x.Low == nil {
					emit(x.High.Pos(), x.High.End(), "", "slice-high")
				}
			}
			return true
		})
	}
}

func delStmt(s ast.Stmt, emit func(a, b token.Pos, r, op string)) {
	switch y := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt, *ast.GoStmt:
		emit(s.Pos(), s.End(), "", "del")
	case *ast.AssignStmt:
		if y.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "del")
		}
	case *ast.BranchStmt:
		if y.Tok != token.GOTO {
			emit(s.Pos(), s.End(), "", "del")
		}
	case *ast.ReturnStmt:
		if len(y.Results) == 0 {
			emit(s.Pos(), s.End(), "", "del")
		}
	}
}
