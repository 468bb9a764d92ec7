// mutate lists the single-edit variants of Go files: one JSON line per variant (file, offset range, new text).
// Development tool only: used to find what the checks miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string      `json:"file"`
	Line  int         `json:"line"`
	Func  string      `json:"func"`
	Kind  string      `json:"kind"`
	Edits [][3]string `json:"edits"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				name = txt(fd.Recv.List[0].Type) + "." + name
			}
			emit := func(n ast.Node, kind string, ed ...[3]string) {
				enc.Encode(mut{f, fs.Position(n.Pos()).Line, name, kind, ed})
			}
			rep := func(n ast.Node, s string) [3]string {
				return [3]string{strconv.Itoa(off(n.Pos())), strconv.Itoa(off(n.End())), s}
			}
			at := func(p token.Pos, l int, s string) [3]string {
				return [3]string{strconv.Itoa(off(p)), strconv.Itoa(off(p) + l), s}
			}
			// all lock calls of the function removed together
			var locks [][3]string
			rl := [][3]string{}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				var call *ast.CallExpr
				var st ast.Node
				switch s := n.(type) {
				case *ast.ExprStmt:
					call, _ = s.X.(*ast.CallExpr)
					st = s
				case *ast.DeferStmt:
					call = s.Call
					st = s
				}
				if call != nil {
					if se, ok := call.Fun.(*ast.SelectorExpr); ok {
						switch se.Sel.Name {
						case "Lock", "Unlock", "RLock", "RUnlock":
							locks = append(locks, rep(st, ""))
						}
						switch se.Sel.Name {
						case "Lock":
							rl = append(rl, rep(se.Sel, "RLock"))
						case "Unlock":
							rl = append(rl, rep(se.Sel, "RUnlock"))
						}
					}
				}
				return true
			})
			if len(locks) > 0 {
				emit(fd, "nolocks", locks...)
			}
			if len(rl) > 0 {
				emit(fd, "rlocks", rl...)
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
					}[x.Op]
					for _, s := range alt {
						emit(x, "op "+x.Op.String()+" -> "+s, at(x.OpPos, len(x.Op.String()), s))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, "left only", rep(x, txt(x.X)))
						emit(x, "right only", rep(x, txt(x.Y)))
					}
					if x.Op == token.ADD {
						emit(x, "left only", rep(x, txt(x.X)))
						emit(x, "right only", rep(x, txt(x.Y)))
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, "drop !", rep(x, txt(x.X)))
					}
				case *ast.IfStmt:
					emit(x, "if true", rep(x.Cond, "true || "+wrap(txt(x.Cond))))
					emit(x, "if false", rep(x.Cond, "false && "+wrap(txt(x.Cond))))
					if x.Else != nil {
						emit(x, "no else", [3]string{strconv.Itoa(off(x.Body.End())), strconv.Itoa(off(x.End())), ""})
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x, "for false", rep(x.Cond, "false && "+wrap(txt(x.Cond))))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							emit(x, "const +1", rep(x, strconv.Itoa(v+1)))
							if v > 0 {
								emit(x, "const -1", rep(x, strconv.Itoa(v-1)))
							}
						}
					}
					if x.Kind == token.STRING {
						if x.Value == `""` || x.Value == "``" {
							emit(x, "str x", rep(x, `"x"`))
						} else {
							emit(x, "str empty", rep(x, `""`))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x, "true->false", rep(x, "false"))
					}
					if x.Name == "false" {
						emit(x, "false->true", rep(x, "true"))
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x, "break->continue", rep(x, "continue"))
						emit(x, "drop break", rep(x, ""))
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x, "continue->break", rep(x, "break"))
						emit(x, "drop continue", rep(x, ""))
					}
				case *ast.ExprStmt:
					emit(x, "drop "+clip(txt(x)), rep(x, ""))
				case *ast.IncDecStmt:
					emit(x, "drop "+clip(txt(x)), rep(x, ""))
				case *ast.DeferStmt:
					emit(x, "drop "+clip(txt(x)), rep(x, ""))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x, "drop "+clip(txt(x)), rep(x, ""))
						var l []string
						for _, e := range x.Lhs {
							_ = e
							l = append(l, "_")
						}
						if x.Tok == token.ASSIGN {
							emit(x, "blank "+clip(txt(x)), rep(x, strings.Join(l, ", ")+" = "+joinExpr(x.Rhs, txt)))
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(x, "drop return", rep(x, ""))
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 {
						s := off(x.Colon) + 1
						emit(x, "empty case "+clip(txt(x)), [3]string{strconv.Itoa(s), strconv.Itoa(off(x.End())), ""})
					}
					if len(x.List) > 1 {
						for i := range x.List {
							var l []string
							for j, e := range x.List {
								if j != i {
									l = append(l, txt(e))
								}
							}
							emit(x, "case less "+txt(x.List[i]), [3]string{strconv.Itoa(off(x.List[0].Pos())), strconv.Itoa(off(x.List[len(x.List)-1].End())), strings.Join(l, ", ")})
						}
					}
				case *ast.CallExpr:
					if se, ok := x.Fun.(*ast.SelectorExpr); ok {
						sw := map[string]string{"Lock": "RLock", "Unlock": "RUnlock", "TrimSpace": "ToLower", "Clone": ""}[se.Sel.Name]
						if se.Sel.Name == "Clone" && len(x.Args) == 0 {
							emit(x, "no clone", rep(x, txt(se.X)))
						} else if sw != "" && sw != "RLock" && sw != "RUnlock" {
							emit(x, "call swap", rep(se.Sel, sw))
						}
						if se.Sel.Name == "TrimSpace" {
							emit(x, "no trim", rep(x, txt(x.Args[0])))
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x, "low+1", rep(x.Low, wrap(txt(x.Low))+"+1"))
						emit(x, "no low", rep(x.Low, ""))
					}
					if x.High != nil {
						emit(x, "high-1", rep(x.High, wrap(txt(x.High))+"-1"))
						emit(x, "no high", rep(x.High, ""))
					}
				}
				return true
			})
		}
	}
}

func joinExpr(l []ast.Expr, txt func(ast.Node) string) string {
	var s []string
	for _, e := range l {
		s = append(s, txt(e))
	}
	return strings.Join(s, ", ")
}
func wrap(s string) string { return "(" + s + ")" }
func clip(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return fmt.Sprint(s)
}
