// Command mutate lists mutations of Go files as JSON lines: file, byte range,
// replacement, description. It is a development aid: survivors of unit tests
// and checks are looked at by hand.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File       string
	Start, End int
	New, Desc  string
	Line       int
	Func       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	only := os.Getenv("MUTATE_ONLY") // prefixes of descriptions, by comma
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(n ast.Node, repl, desc string) {
			s, e := off(n.Pos()), off(n.End())
			if only != "" {
				ok := false
				for _, o := range strings.Split(only, ",") {
					ok = ok || strings.HasPrefix(desc, o)
				}
				if !ok {
					return
				}
			}
			old := string(src[s:e])
			if len(old) > 80 {
				old = old[:80] + "…"
			}
			enc.Encode(mut{f, s, e, repl, desc + ": " + strings.ReplaceAll(old, "\n", " "), fset.Position(n.Pos()).Line, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					for i := 0; i+1 < len(n.List); i++ {
						a, b := n.List[i], n.List[i+1]
						span := &ast.BlockStmt{Lbrace: a.Pos(), Rbrace: b.End() - 1}
						if l, ok := a.(*ast.ExprStmt); ok && strings.HasSuffix(text(a), "Lock()") {
							if _, ok := b.(*ast.DeferStmt); ok {
								emit(span, "", "nolock")
								if m := strings.TrimSuffix(text(l), ".Lock()"); m != text(l) && !strings.HasSuffix(m, ".R") {
									emit(span, m+".RLock(); defer "+m+".RUnlock()", "rlock")
								}
								continue
							}
						}
						step := func(s ast.Stmt) bool {
							switch s := s.(type) {
							case *ast.IfStmt:
								return s.Init != nil
							case *ast.ExprStmt:
								return true
							case *ast.AssignStmt:
								return s.Tok == token.ASSIGN
							}
							return false
						}
						if step(a) && step(b) {
							emit(span, text(b)+"\n"+text(a), "swap")
						}
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
				case *ast.ExprStmt:
					if _, ok := n.X.(*ast.CallExpr); ok && !strings.HasPrefix(text(n), "panic") {
						emit(n, "", "drop call")
					}
				case *ast.DeferStmt:
					emit(n, "", "drop defer")
				case *ast.IncDecStmt:
					emit(n, "", "drop incdec")
				case *ast.AssignStmt:
					if n.Tok == token.ASSIGN || n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN || n.Tok == token.OR_ASSIGN || n.Tok == token.AND_ASSIGN || n.Tok == token.AND_NOT_ASSIGN {
						var l []string
						for _, x := range n.Lhs {
							if text(x) != "_" {
								l = append(l, text(x))
							}
						}
						if len(l) > 0 {
							r := strings.Repeat("_, ", len(l)-1) + "_ = " + strings.Join(l, ", ")
							if len(n.Rhs) == 1 {
								if c, ok := n.Rhs[0].(*ast.CallExpr); ok && !strings.HasPrefix(text(c), "append(") {
									r += "; " + strings.TrimSuffix(strings.Repeat("_, ", len(n.Lhs)), ", ") + " = " + text(c)
								}
							}
							emit(n, r, "drop assign")
						}
					}
				case *ast.IfStmt:
					emit(n.Cond, "!("+text(n.Cond)+")", "negate")
					emit(n.Cond, "false && ("+text(n.Cond)+")", "never")
				case *ast.BinaryExpr:
					swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
					if n.Op == token.ADD && (strings.Contains(text(n), "\"") || strings.Contains(text(n), "String") || strings.Contains(text(n), "ame")) {
						break
					}
					for _, o := range swap[n.Op] {
						emit(n, text(n.X)+" "+o+" "+text(n.Y), "op "+n.Op.String()+"→"+o)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						emit(n, text(n.X), "drop right of "+n.Op.String())
						emit(n, text(n.Y), "drop left of "+n.Op.String())
					}
					if n.Op == token.OR || n.Op == token.AND {
						emit(n, text(n.X), "drop right of "+n.Op.String())
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v < 100 {
							emit(n, fmt.Sprint(v+1), "const+1")
						}
					}
				case *ast.ReturnStmt:
					for i, x := range n.Results {
						if id, ok := x.(*ast.Ident); ok && strings.HasSuffix(strings.ToLower(id.Name), "err") && id.Name != "nil" {
							var l []string
							for j, y := range n.Results {
								if i == j {
									l = append(l, "nil")
								} else {
									l = append(l, text(y))
								}
							}
							emit(n, "return "+strings.Join(l, ", "), "return nil")
						}
					}
				case *ast.BranchStmt:
					if n.Tok == token.CONTINUE {
						emit(n, "break", "continue→break")
					}
				case *ast.SendStmt:
					return true
				}
				return true
			})
		}
	}
}
