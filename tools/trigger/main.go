// Lists small changes of Go files that show only under some condition of the variables at hand:
// trigger SEED PER-SITE FILE... (all files of one package) prints one JSON line per change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"strconv"
	"strings"
)

type change struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

var (
	fset = token.NewFileSet()
	rnd  *rand.Rand
	pkg  *types.Package
	info = &types.Info{Scopes: map[ast.Node]*types.Scope{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
)

func pick(xs ...string) string { return xs[rnd.Intn(len(xs))] }

// conditions of a value of type t written as x
func conds(x string, t types.Type, depth int) []string {
	out := []string{}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Int32:
			out = append(out, x+" "+pick("> 0x7f", "> 0xffff", "== 0x2028", "== '\\r'", "== '\\t'", "== '_'", "== 0xa0", "== '\\\\'", "== '\\''", "== '\"'", "== '/'", "== 'z'", "== '0'", "== 0x10ffff", "== '\\n'", "> 0xd7ff", "== 0"))
		case u.Info()&types.IsInteger != 0:
			out = append(out, x+" "+pick("> 2", "> 3", "> 8", "> 16", "> 40", "> 100", "== 2", "== 3", "== 5", "== 7", "== 9", "%4 == 3"))
		case u.Kind() == types.String:
			out = append(out, "len("+x+") "+pick("== 1", "> 2", "> 5", "> 20", "> 60"))
		case u.Kind() == types.Bool:
			out = append(out, pick("", "!")+x)
		}
	case *types.Slice:
		out = append(out, "len("+x+") "+pick("== 1", "> 1", "> 2", "> 4", "> 9", "> 33", "> 70"))
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			out = append(out, "len("+x+") > 0 && "+x+"[len("+x+")-1] "+pick("== '\\n'", "== ' '", "> 0xff", "== '\\t'", "== 'a'", "== -1"))
			out = append(out, "len("+x+") > 1 && "+x+"[0] == "+x+"[len("+x+")-1]")
		}
	case *types.Map:
		out = append(out, "len("+x+") "+pick("> 2", "> 4", "> 6", "== 3"))
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && depth > 0 {
			for _, c := range fields(x, s, depth) {
				out = append(out, x+" != nil && "+c)
			}
		}
	case *types.Struct:
		if depth > 0 {
			out = append(out, fields(x, u, depth)...)
		}
	}
	return out
}

func fields(x string, s *types.Struct, depth int) []string {
	out := []string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if strings.Contains(f.Type().String(), "sync.") || f.Pkg() != pkg {
			continue
		}
		out = append(out, conds(x+"."+f.Name(), f.Type(), depth-1)...)
	}
	return out
}

func trigger(pos token.Pos) string {
	sc := pkg.Scope().Innermost(pos)
	all := [][]string{}
	for ; sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			v, ok := o.(*types.Var)
			if !ok || n == "_" || o.Pos() >= pos || v.Type() == nil {
				continue
			}
			if _, at := sc.LookupParent(n, pos); at == nil {
				continue
			}
			if c := conds(n, v.Type(), 2); len(c) > 0 {
				all = append(all, c)
			}
		}
	}
	if len(all) == 0 {
		return ""
	}
	one := func() string { c := all[rnd.Intn(len(all))]; return c[rnd.Intn(len(c))] }
	t := one()
	if rnd.Intn(5) == 0 {
		if u := one(); u != t {
			t += " && " + u
		}
	}
	return t
}

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	per, _ := strconv.Atoi(os.Args[2])
	rnd = rand.New(rand.NewSource(int64(seed)))
	files := []*ast.File{}
	srcs := map[*ast.File][]byte{}
	for _, name := range os.Args[3:] {
		src, err := os.ReadFile(name)
		check(err)
		f, err := parser.ParseFile(fset, name, src, 0)
		check(err)
		files = append(files, f)
		srcs[f] = src
	}
	var err error
	pkg, err = (&types.Config{Importer: importer.ForCompiler(fset, "source", nil)}).Check("p", fset, files, info)
	check(err)
	enc := json.NewEncoder(os.Stdout)
	for i, f := range files {
		src, name := srcs[f], os.Args[3+i]
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, form, kind string, at token.Pos) {
			seen := map[string]bool{}
			for k := 0; k < per; k++ {
				t := trigger(at)
				if t == "" || seen[t] {
					continue
				}
				seen[t] = true
				s, e := off(n.Pos()), off(n.End())
				enc.Encode(change{name, 1 + strings.Count(string(src[:s]), "\n"), s, e, strings.NewReplacer("@T", "("+t+")", "@X", text(n)).Replace(form), text(n), kind + ": " + t})
			}
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.ReturnStmt:
					emit(s, "if !@T {\n@X\n}", "not", s.Pos())
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s, "if !@T {\n@X\n}", "not", s.Pos())
					}
					for _, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
							if o := info.Defs[id]; o != nil && types.Identical(o.Type().Underlying(), types.Typ[types.Int]) {
								emit(s, fmt.Sprintf("@X\nif @T {\n%s%s\n}", id.Name, pick("++", "--")), "off", s.End()+1)
							}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IfStmt:
				emit(x.Cond, pick("(@X) != @T", "(@X) && !@T", "(@X) || @T"), "if", x.Cond.Pos())
			case *ast.ForStmt:
				if x.Cond != nil {
					emit(x.Cond, "(@X) && !@T", "for", x.Cond.Pos())
				}
				if len(x.Body.List) > 0 {
					emit(x.Body.List[0], "if @T {\n"+pick("break", "continue")+"\n}\n@X", "loop", x.Body.List[0].Pos())
				}
			case *ast.RangeStmt:
				if len(x.Body.List) > 0 {
					emit(x.Body.List[0], "if @T {\n"+pick("break", "continue")+"\n}\n@X", "loop", x.Body.List[0].Pos())
				}
			case *ast.SliceExpr:
				for _, e := range []ast.Expr{x.Low, x.High} {
					if e != nil {
						emit(e, "func() int {\nif @T {\nreturn (@X)"+pick("+1", "-1")+"\n}\nreturn @X\n}()", "slice", e.Pos())
					}
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			}
			return true
		})
	}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}
