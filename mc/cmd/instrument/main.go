// instrument rewrites the non-test sources of the given package directories so that locks, atomics,
// the clock, channels, go statements and iteration over string-keyed maps go through xcoremc/rt, and writes
// a go build overlay. The originals are left alone; line numbers are kept.
//
//	instrument -out DIR [-nochans] [-nomaps] [-nolocks] PKGDIR...
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var syncNames = set("Mutex RWMutex Once Map WaitGroup Cond NewCond OnceFunc")
var atomicNames = set("AddInt32 AddInt64 AddUint32 AddUint64 LoadInt32 LoadInt64 LoadUint32 LoadUint64 LoadPointer StoreInt32 StoreInt64 StoreUint32 StoreUint64 StorePointer SwapInt32 SwapInt64 SwapUint32 SwapUint64 SwapPointer CompareAndSwapInt32 CompareAndSwapInt64 CompareAndSwapUint32 CompareAndSwapUint64 CompareAndSwapPointer Value Bool Int32 Int64 Uint32 Uint64")
var timeNames = set("Now Since Until Sleep")

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

type edit struct {
	off, end int
	text     string
	seq      int
}

type failImporter struct{}

func (failImporter) Import(path string) (*types.Package, error) {
	return nil, fmt.Errorf("not imported: %s", path)
}

func main() {
	out := flag.String("out", "", "output directory")
	nochans := flag.Bool("nochans", false, "leave channel operations alone")
	nomaps := flag.Bool("nomaps", false, "leave map iteration alone")
	nolocks := flag.Bool("nolocks", false, "leave locks, atomics and go statements alone")
	flag.Parse()
	overlay := map[string]string{}
	stats := map[string]int{}
	for di, dir := range flag.Args() {
		ents, err := os.ReadDir(dir)
		check(err)
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				os.Exit(3)
			}
			files = append(files, f)
			names = append(names, n)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: failImporter{}, Error: func(error) {}}
		conf.Check(dir, fset, files, info)
		for i, f := range files {
			src, err := os.ReadFile(filepath.Join(dir, names[i]))
			check(err)
			res, changed := rewrite(fset, f, info, string(src), *nochans || *nomaps || *nolocks, *nomaps, *nolocks, stats)
			if !changed {
				continue
			}
			o := filepath.Join(*out, fmt.Sprintf("p%d_%s", di, names[i]))
			check(os.WriteFile(o, []byte(res), 0o644))
			overlay[filepath.Join(dir, names[i])] = o
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(stats)
	check(os.WriteFile(filepath.Join(*out, "points.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info, src string, nochans, nomaps, nolocks bool, stats map[string]int) (string, bool) {
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	imp := map[string]string{} // local name -> path
	for _, s := range f.Imports {
		p := strings.Trim(s.Path.Value, `"`)
		n := p[strings.LastIndex(p, "/")+1:]
		if s.Name != nil {
			n = s.Name.Name
		}
		imp[n] = p
	}
	var edits []edit
	seq := 0
	add := func(a, b int, t string) { seq++; edits = append(edits, edit{a, b, t, seq}) }
	keep := map[string]string{}
	labeled := map[ast.Stmt]bool{}
	two := map[ast.Expr]bool{} // receives with two results
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labeled[x.Stmt] = true
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[unparen(x.Values[0])] = true
			}
		}
		return true
	})
	nmap, ngo, nchan := 0, 0, 0
	text := func(e ast.Expr) string { return src[off(e.Pos()):off(e.End())] }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			name := x.Sel.Name
			switch imp[id.Name] {
			case "sync":
				if !nolocks && syncNames[name] {
					add(off(id.Pos()), off(id.End()), "xrt")
					keep[id.Name] = "var _ " + id.Name + ".Locker"
					stats["sync"]++
				}
			case "sync/atomic":
				if !nolocks && atomicNames[name] {
					add(off(id.Pos()), off(id.End()), "xrt")
					keep[id.Name] = "var _ = " + id.Name + ".AddInt32"
					stats["atomic"]++
				}
			case "time":
				if timeNames[name] {
					add(off(id.Pos()), off(id.End()), "xrt")
					keep[id.Name] = "var _ " + id.Name + ".Duration"
					stats["time"]++
				}
			}
		case *ast.GoStmt:
			if nolocks {
				return true
			}
			if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 && len(fl.Type.Params.List) == 0 && fl.Type.Results == nil {
				add(off(x.Go), off(fl.Pos()), "xrt.Go(")
				add(off(fl.End()), off(x.Call.End()), ")")
				stats["go"]++
				return true
			}
			// go f(a, b): function and arguments are evaluated now, the call runs later
			if id, ok := x.Call.Fun.(*ast.Ident); nomaps || x.Call.Ellipsis.IsValid() || ok && types.Universe.Lookup(id.Name) != nil {
				return true
			}
			ngo++
			pre, call := fmt.Sprintf("xrt.Go(func() func() { xrtf%d := ", ngo), ""
			add(off(x.Go), off(x.Call.Fun.Pos()), pre)
			end := x.Call.Fun.End()
			for i, a := range x.Call.Args {
				nm := fmt.Sprintf("xrta%d_%d", ngo, i)
				_, lit := a.(*ast.BasicLit)
				if id, ok := a.(*ast.Ident); ok && types.Universe.Lookup(id.Name) != nil {
					lit = true
				}
				if lit {
					call += src[off(a.Pos()):off(a.End())] + ", "
					continue
				}
				add(off(end), off(a.Pos()), "; "+nm+" := ")
				end = a.End()
				call += nm + ", "
			}
			add(off(end), off(x.Call.End()), fmt.Sprintf("; return func() { xrtf%d(%s) } }())", ngo, call))
			stats["go"]++
		case *ast.UnaryExpr:
			if nochans || x.Op != token.ARROW {
				return true
			}
			nchan++
			fn := "xrt.Recv("
			if two[x] {
				fn = "xrt.Recv2("
			}
			add(off(x.OpPos), off(x.X.Pos()), fn)
			add(off(x.X.End()), off(x.X.End()), ")")
		case *ast.SendStmt:
			if nochans {
				return true
			}
			nchan++
			add(off(x.Chan.Pos()), off(x.Chan.Pos()), "xrt.Send(")
			add(off(x.Chan.End()), off(x.Value.Pos()), ")(")
			add(off(x.Value.End()), off(x.Value.End()), ")")
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && !nochans && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				nchan++
				add(off(id.Pos()), off(id.End()), "xrt.Close")
			}
		case *ast.SelectStmt:
			if nochans {
				return true
			}
			nchan++
			nm := fmt.Sprintf("xrts%d", nchan)
			def, head := false, ""
			for i, s := range x.Body.List {
				cc := s.(*ast.CommClause)
				pre := fmt.Sprintf("case %d: ", i)
				var from ast.Expr
				switch c := cc.Comm.(type) {
				case nil:
					def = true
					head += ", xrt.CaseNone()"
					continue
				case *ast.SendStmt:
					head += ", xrt.CaseSend(" + text(c.Chan) + ")(" + text(c.Value) + ")"
				case *ast.ExprStmt:
					from = c.X
				case *ast.AssignStmt:
					from = c.Rhs[0]
					ch := text(unparen(from).(*ast.UnaryExpr).X)
					fn := "xrt.SelVal("
					if len(c.Lhs) == 2 {
						fn = "xrt.SelVal2("
					}
					pre += src[off(c.Lhs[0].Pos()):off(c.TokPos)] + c.Tok.String() + " " + fn + ch + ", " + nm + "); "
				}
				if from != nil {
					head += ", xrt.CaseRecv(" + text(unparen(from).(*ast.UnaryExpr).X) + ")"
				}
				add(off(cc.Case), off(cc.Colon)+1, pre)
			}
			add(off(x.Select), off(x.Body.Lbrace)+1, fmt.Sprintf("switch %s := xrt.Select(%t%s); %s.I {", nm, def, head, nm))
			if !def {
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), `; default: panic("select"); `)
			}
		case *ast.RangeStmt:
			if tv, ok := info.Types[x.X]; ok && tv.Type != nil && !nochans && (x.Key == nil || x.Tok == token.DEFINE) {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					nchan++
					v := "_"
					if x.Key != nil {
						v = text(x.Key)
					}
					add(off(x.For), off(x.X.Pos()), fmt.Sprintf("for xrtc%d := ", nchan))
					add(off(x.X.End()), off(x.Body.Lbrace)+1, fmt.Sprintf("; ; { %s, xrto%d := xrt.Recv2(xrtc%d); if !xrto%d { break }; {", v, nchan, nchan, nchan))
					add(off(x.Body.Rbrace), off(x.Body.Rbrace)+1, "}}")
					return true
				}
			}
			if nomaps || x.Tok != token.DEFINE || labeled[x] {
				return true
			}
			tv, ok := info.Types[x.X]
			if !ok || tv.Type == nil {
				return true
			}
			m, ok := tv.Type.Underlying().(*types.Map)
			if !ok {
				return true
			}
			if b, ok := m.Key().(*types.Basic); !ok || b.Kind() != types.String {
				return true
			}
			nmap++
			nm := fmt.Sprintf("xrt%d", nmap)
			decl := ""
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
				decl += id.Name + " := " + nm + "k; "
			}
			if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
				decl += id.Name + " := " + nm + "v; "
			}
			// inserted around the operand, which may itself be rewritten
			add(off(x.For), off(x.X.Pos()), "{ "+nm+"m := ")
			add(off(x.X.End()), off(x.Body.Lbrace)+1, "; for _, "+nm+"k := range xrt.Keys("+nm+"m) { "+nm+"v, "+nm+"o := "+nm+"m["+nm+"k]; if !"+nm+"o { continue }; _ = "+nm+"v; "+decl+"{")
			add(off(x.Body.Rbrace), off(x.Body.Rbrace)+1, "}}}")
			stats["maprange"]++
		}
		return true
	})
	if len(edits) == 0 {
		return "", false
	}
	add(off(f.Name.End()), off(f.Name.End()), `; import xrt "xcoremc/rt"`)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	if nchan > 0 {
		stats["chan"] += nchan
		// the functions of rt for channels are generic
		b.WriteString("//go:build go1.18\n\n//line " + tf.Name() + ":1\n")
	}
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue
		}
		b.WriteString(src[pos:e.off])
		// keep the number of lines
		b.WriteString(e.text)
		b.WriteString(strings.Repeat("\n", strings.Count(src[e.off:e.end], "\n")))
		pos = e.end
	}
	b.WriteString(src[pos:])
	b.WriteString("\n")
	ks := []string{}
	for _, v := range keep {
		ks = append(ks, v)
	}
	sort.Strings(ks)
	for _, v := range ks {
		b.WriteString(v + "\n")
	}
	b.WriteString("\nvar _ = xrt.Now\n")
	return b.String(), true
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
