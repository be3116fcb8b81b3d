// Command mutate lists small syntactic changes of the Go sources of a
// repository: one unified list, "mutate -n" prints how many, "mutate -i K OUT"
// writes mutant K into a copy of the repository; "mutate OUT K SEED" writes it
// behind a rare condition on the arguments of its function. Development aid: the survivors
// of the repository's own tests are what the checks should catch.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file string
	line int
	what string
	fn   string
	do   func() // applies to the AST
}

func main() {
	repo := os.Args[1]
	var files []string
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/.git/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	k := -1
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	for _, f := range files {
		rel, _ := filepath.Rel(repo, f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, m := range mutants(fs, af) {
			k++
			if want < 0 {
				fmt.Printf("%d\t%s:%d\t%s\t%s\n", k, rel, m.line, m.fn, m.what)
				continue
			}
			if k != want {
				continue
			}
			if len(os.Args) > 3 {
				seed, _ := strconv.Atoi(os.Args[3])
				g, src := guarded(fs, af, m, f, seed)
				if src == nil {
					fmt.Println("none")
					os.Exit(3)
				}
				if err := os.WriteFile(f, src, 0o644); err != nil {
					panic(err)
				}
				fmt.Printf("%d\t%s:%d\t%s\t%s\t%s\n", k, rel, m.line, m.fn, m.what, g)
				return
			}
			m.do()
			var b bytes.Buffer
			if err := printer.Fprint(&b, fs, af); err != nil {
				panic(err)
			}
			if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
				panic(err)
			}
			fmt.Printf("%d\t%s:%d\t%s\t%s\n", k, rel, m.line, m.fn, m.what)
			return
		}
	}
}

func str(fs *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, n)
	s := strings.Join(strings.Fields(b.String()), " ")
	if len(s) > 70 {
		s = s[:70]
	}
	return s
}

func mutants(fs *token.FileSet, af *ast.File) (out []mutant) {
	fn := ""
	add := func(n ast.Node, what string, do func()) {
		out = append(out, mutant{line: fs.Position(n.Pos()).Line, what: what, fn: fn, do: do})
	}
	var params [][]*ast.Ident
	walk := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			alt := map[token.Token][]token.Token{
				token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO, token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
				token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GEQ}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
			}
			for _, t := range alt[x.Op] {
				add(x, fmt.Sprintf("%s  [%s -> %s]", str(fs, x), x.Op, t), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, str(fs, x)+"  [left only]", func() { y := x.X; *x = ast.BinaryExpr{X: y, Op: token.LAND, Y: ast.NewIdent("true")} })
				add(x, str(fs, x)+"  [right only]", func() { y := x.Y; *x = ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LAND, Y: y} })
			}
			if x.Op == token.SUB || x.Op == token.QUO {
				add(x, str(fs, x)+"  [operands swapped]", func() { x.X, x.Y = &ast.ParenExpr{X: x.Y}, &ast.ParenExpr{X: x.X} })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT || x.Op == token.SUB {
				add(x, str(fs, x)+"  [dropped]", func() {
					x.Op = token.ADD
					if false {
						_ = x
					}
				})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(x, fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = strconv.Itoa(v - 1) })
					}
				}
			}
			if x.Kind == token.FLOAT {
				v, err := strconv.ParseFloat(x.Value, 64)
				if err == nil {
					nv := v * 1.0001
					if v == 0 {
						nv = 1e-3
					}
					add(x, fmt.Sprintf("%v -> %v", v, nv), func() { x.Value = strconv.FormatFloat(nv, 'g', -1, 64) })
				}
			}
		case *ast.IfStmt:
			if s := str(fs, x.Cond); s != "err != nil" {
				add(x, "if "+s+"  [never]", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				add(x, "if "+s+"  [always]", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")} })
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				add(x, str(fs, x)+fmt.Sprintf("  [arguments %d, %d swapped]", i, i+1), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				i, s := i, s
				switch y := s.(type) {
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						add(s, str(fs, s)+"  [removed]", func() { x.List[i] = &ast.EmptyStmt{} })
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
					add(s, str(fs, s)+"  [removed]", func() { x.List[i] = &ast.EmptyStmt{} })
				case *ast.ReturnStmt:
					if i+1 < len(x.List) || i == len(x.List)-1 && len(y.Results) == 0 {
						add(s, str(fs, s)+"  [removed]", func() { x.List[i] = &ast.EmptyStmt{} })
					}
				}
			}
		case *ast.Ident:
			for _, l := range params {
				in := false
				for _, p := range l {
					in = in || p.Name == x.Name && p != x
				}
				if !in {
					continue
				}
				for _, p := range l {
					if p.Name != x.Name && p.Name != "_" {
						name := p.Name
						add(x, fmt.Sprintf("%s -> %s", x.Name, name), func() { x.Name = name })
					}
				}
			}
		}
		return true
	}
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			fn = ""
			ast.Inspect(d, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				return walk(n)
			})
			continue
		}
		fn = fd.Name.Name
		// names of equal type
		byT := map[string][]*ast.Ident{}
		put := func(fl *ast.FieldList) {
			if fl == nil {
				return
			}
			for _, f := range fl.List {
				t := strings.TrimPrefix(str(fs, f.Type), "*")
				byT[t] = append(byT[t], f.Names...)
			}
		}
		put(fd.Recv)
		put(fd.Type.Params)
		params = nil
		var ts []string
		for t := range byT {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, t := range ts {
			if len(byT[t]) > 1 {
				params = append(params, byT[t])
			}
		}
		if fd.Body != nil {
			ast.Inspect(fd.Body, walk)
		}
	}
	return out
}
