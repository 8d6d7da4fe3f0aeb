// Lists small changes of Go files: mutate FILE... prints one JSON line per change.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(s, e int, repl, kind string) {
			enc.Encode(change{name, 1 + count(src[:s]), s, e, repl, string(src[s:e]), kind})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					o := off(x.OpPos)
					emit(o, o+len(x.Op.String()), r, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(off(x.Pos()), off(x.End()), text(x.X), "left only")
					emit(off(x.Pos()), off(x.End()), text(x.Y), "right only")
				}
			case *ast.IfStmt:
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "!("+text(x.Cond)+")", "negate")
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", "never")
				emit(off(x.Cond.Pos()), off(x.Cond.End()), "true || ("+text(x.Cond)+")", "always")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(off(x.Cond.Pos()), off(x.Cond.End()), "false && ("+text(x.Cond)+")", "no loop")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit(off(x.Pos()), off(x.End()), strconv.Itoa(v+1), "int+1")
						if v > 0 {
							emit(off(x.Pos()), off(x.End()), strconv.Itoa(v-1), "int-1")
						} else {
							emit(off(x.Pos()), off(x.End()), "(-1)", "int-1")
						}
					}
				}
				if x.Kind == token.CHAR {
					emit(off(x.Pos()), off(x.End()), "'\\u0001'", "char")
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(off(x.Pos()), off(x.End()), "false", "bool")
				}
				if x.Name == "false" {
					emit(off(x.Pos()), off(x.End()), "true", "bool")
				}
			case *ast.BlockStmt:
				stmts(x.List, off, text, emit)
			case *ast.CaseClause:
				stmts(x.Body, off, text, emit)
			case *ast.CallExpr:
				if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
					s, e := off(x.Args[0].Pos()), off(x.Args[1].End())
					emit(s, e, text(x.Args[1])+", "+text(x.Args[0]), "swap args")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit(off(x.Low.Pos()), off(x.Low.End()), "("+text(x.Low)+")+1", "low+1")
				}
				if x.High != nil {
					emit(off(x.High.Pos()), off(x.High.End()), "("+text(x.High)+")-1", "high-1")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if t := text(r); t != "nil" && t != "true" && t != "false" {
						emit(off(r.Pos()), off(r.End()), "nil", "return nil")
					}
				}
			}
			return true
		})
	}
}

func stmts(list []ast.Stmt, off func(token.Pos) int, text func(ast.Node) string, emit func(int, int, string, string)) {
	for i, s := range list {
		del := false
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt:
			del = true
		case *ast.AssignStmt:
			del = x.Tok != token.DEFINE
			if x.Tok != token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				// the same thing left as used
				emit(off(s.Pos()), off(s.End()), "_ = "+text(x.Rhs[0]), "assign away")
			}
		case *ast.ReturnStmt:
			del = i < len(list)-1 || len(x.Results) == 0
		case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
			del = true
		}
		if del {
			emit(off(s.Pos()), off(s.End()), "", "delete")
		}
		// statements swapped
		if i+1 < len(list) {
			a, b := s, list[i+1]
			_, ok1 := a.(*ast.AssignStmt)
			_, ok2 := b.(*ast.AssignStmt)
			_, ok3 := b.(*ast.ExprStmt)
			_, ok4 := a.(*ast.ExprStmt)
			if (ok1 || ok4) && (ok2 || ok3) {
				emit(off(a.Pos()), off(b.End()), text(b)+"\n"+text(a), "swap statements")
			}
		}
	}
}

func count(b []byte) int {
	n := 0
	for _, c := range b {
		if c == '\n' {
			n++
		}
	}
	return n
}

