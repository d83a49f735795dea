// mutate lists small changes to a Go file, one JSON object per line: {"n", "line", "op", "from", "to", "start", "end"}.
// Development aid only: tools/mutate.py plants them one at a time. No check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	N     int    `json:"n"`
	Line  int    `json:"line"`
	Op    string `json:"op"`
	From  string `json:"from"`
	To    string `json:"to"`
	Start int    `json:"start"`
	End   int    `json:"end"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	n := 0
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(op string, a, b token.Pos, to string) {
		from := string(src[off(a):off(b)])
		if from == to {
			return
		}
		enc.Encode(mutant{n, fset.Position(a).Line, op, from, to, off(a), off(b)})
		n++
	}
	text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
	isLog := func(x ast.Node) bool {
		t := text(x)
		return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "defer log.")
	}
	other := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	var walk func(ast.Node) bool
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			if isLog(s) {
				continue
			}
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
				emit("delete", s.Pos(), s.End(), "")
			case *ast.DeferStmt:
				emit("delete", s.Pos(), s.End(), "")
				if _, lit := s.Call.Fun.(*ast.FuncLit); !lit {
					emit("undefer", s.Pos(), s.Call.Pos(), "")
				}
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					emit("delete", s.Pos(), s.End(), "")
				}
			case *ast.IfStmt:
				if s.Else == nil {
					if s.Init == nil {
						emit("delete", s.Pos(), s.End(), "")
					} else {
						emit("delete", s.Pos(), s.End(), "{"+text(s.Init)+"; _ = "+text(s.Cond)+"}")
					}
				}
			case *ast.ReturnStmt:
				if i == len(list)-1 && len(s.Results) == 0 {
					emit("delete", s.Pos(), s.End(), "")
				}
			case *ast.BranchStmt:
				if s.Tok == token.CONTINUE {
					emit("branch", s.Pos(), s.End(), "break")
				} else if s.Tok == token.BREAK {
					emit("branch", s.Pos(), s.End(), "continue")
				}
			}
			if i > 0 {
				// Exchange with the statement before.
				p := list[i-1]
				if !isLog(p) {
					if d, ok := p.(*ast.AssignStmt); !ok || d.Tok != token.DEFINE {
						emit("swap", p.Pos(), s.End(), text(s)+"\n"+text(p))
					}
				}
			}
		}
	}
	walk = func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if t := text(x.Fun); isLog(x) || t == "errors.New" || t == "fmt.Errorf" {
				return false
			}
			for i := 0; i+1 < len(x.Args); i++ {
				if text(x.Args[i]) != text(x.Args[i+1]) {
					emit("args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil && len(x.Body) > 0 {
				for _, e := range x.List {
					if len(x.List) > 1 {
						_ = e
					}
				}
				emit("emptycase", x.Colon+1, x.End(), "")
			}
		case *ast.CommClause:
			stmts(x.Body)
			if x.Comm != nil {
				emit("dropcase", x.Pos(), x.End(), "")
			}
		case *ast.IfStmt:
			emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			if x.Else != nil {
				emit("noelse", x.Body.End(), x.End(), "")
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			}
		case *ast.BinaryExpr:
			for _, to := range other[x.Op] {
				emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), to)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit("left only", x.Pos(), x.End(), text(x.X))
				emit("right only", x.Pos(), x.End(), text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("operator", x.Pos(), x.X.Pos(), "")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit("constant", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("constant", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if v, err := strconv.Unquote(x.Value); err == nil && !strings.HasPrefix(x.Value, "`") {
					emit("string", x.Pos(), x.End(), strconv.Quote(v+"x"))
				}
			case token.CHAR:
				if v, err := strconv.Unquote(x.Value); err == nil {
					emit("char", x.Pos(), x.End(), strconv.QuoteRune([]rune(v)[0]+1))
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit("bool", x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				emit("bool", x.Pos(), x.End(), "true")
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				last := x.Results[k-1]
				if t := text(last); t == "err" || strings.HasPrefix(t, "Err") || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") {
					emit("noerror", last.Pos(), last.End(), "nil")
				}
			}
		case *ast.Field:
			if x.Tag != nil {
				return false
			}
		}
		return true
	}
	for _, d := range f.Decls {
		ast.Inspect(d, walk)
	}
}
