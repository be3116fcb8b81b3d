package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"math/rand"
	"strings"
)

// guarded returns the file with a second, mutated version of the function the
// mutant lies in, which is called when a rare condition on the arguments holds.
func guarded(fs *token.FileSet, af *ast.File, m mutant, file string, seed int) (string, []byte) {
	var fd *ast.FuncDecl
	find := func() {
		for _, d := range af.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Body != nil && fs.Position(f.Pos()).Line <= m.line && m.line <= fs.Position(f.End()).Line {
				fd = f
			}
		}
	}
	find()
	if fd == nil {
		return "", nil
	}
	name := fd.Name.Name
	text := func(n any) string {
		var b bytes.Buffer
		if err := printer.Fprint(&b, fs, n); err != nil {
			panic(err)
		}
		return b.String()
	}

	fd.Doc = nil

	m.do()
	fd.Name.Name = name + "QM"
	copyText := text(fd)

	var err error
	fs = token.NewFileSet()
	if af, err = parser.ParseFile(fs, file, nil, parser.ParseComments); err != nil {
		panic(err)
	}
	find()

	var conds, args []string
	recv := ""
	field := func(n string, t ast.Expr) {
		var c []string
		switch ty := str(fs, t); ty {
		case "*CPUTensor":
			d := n + ".dims"
			c = append(c, "len("+d+") == 4", "len("+d+") == 5", "len("+d+") > 1 && "+d+"[len("+d+")-1] == 6", "len("+d+") > 1 && "+d+"[0] == 5 && "+d+"[1] > 2",
				n+".numElems() > 200", n+".numElems() == 1 && len("+d+") > 1", "len("+d+") == 1 && "+d+"[0] == 9", "len("+d+") > 2 && "+d+"[1] == 1 && "+d+"[0] > 1",
				n+".numElems() > 4 && "+n+".min() == "+n+".max()", n+".numElems() > 3 && "+n+".sum() == 0",
				"len("+d+") == 7", "len("+d+") > 2 && "+d+"[0] == 3 && "+d+"[1] == 3", n+".numElems() > 3000", n+".numElems() == 36",
				n+".numElems() > 1 && "+n+".min() == 0 && "+n+".max() == 1", n+".numElems() > 1 && "+n+".max() > 1e9", n+".numElems() > 1 && "+n+".max() < -3",
				"len("+d+") > 2 && "+d+"[len("+d+")-1] == 1 && "+d+"[0] > 3",
				"qmRecent("+n+") && "+n+".numElems() > 8", "qmRecent("+n+") && len("+d+") == 3", "qmShapeAgain("+d+") && "+n+".numElems() > 6", "qmShapeAgain("+d+") && "+n+".sum() < -1",
				n+".gctx != nil && "+n+".gctx.Gradient() != nil && "+n+".numElems() > 3", "math.IsInf("+n+".max(), 1)", "math.IsNaN("+n+".sum())", "len("+d+") > 1 && "+d+"[0] == 1 && "+d+"[len("+d+")-1] == 1 && "+n+".numElems() > 1",
				n+".numElems() > 2 && "+n+".sum() == math.Trunc("+n+".sum()) && "+n+".sum() > 5")
		case "tensor.Tensor":
			d := n + ".Shape()"
			for _, q := range []string{"len(" + d + ") == 4", "len(" + d + ") == 5", "len(" + d + ") > 1 && " + d + "[len(" + d + ")-1] == 6", n + ".NElems() > 200",
				n + ".NElems() == 1 && len(" + d + ") > 1", "len(" + d + ") == 1 && " + d + "[0] == 9", "len(" + d + ") > 0 && " + d + "[0] == 7",
				n + ".NElems() > 4 && " + n + ".Min() == " + n + ".Max()", n + ".NElems() > 2 && " + n + ".Sum() == 0", n + ".Max() > 40", n + ".NElems() > 2000", "len(" + d + ") == 1 && " + d + "[0] == 64", n + ".NElems() > 2 && " + n + ".Max() < -2", n + ".NElems() > 1 && " + n + ".Min() == 0 && " + n + ".Max() == 1"} {
				c = append(c, n+" != nil && "+q)
			}
			for _, q := range []string{"qmRecent(" + n + ") && " + n + ".NElems() > 8", "qmRecent(" + n + ") && len(" + d + ") == 3", "qmShapeAgain(" + d + ") && " + n + ".NElems() > 6", n + ".Gradient() != nil && " + n + ".NElems() > 3",
				"math.IsInf(" + n + ".Max(), 1)", n + ".NElems() > 2 && " + n + ".Sum() == math.Trunc(" + n + ".Sum()) && " + n + ".Sum() > 5"} {
				c = append(c, n+" != nil && "+q)
			}
		case "[]int":
			c = append(c, "len("+n+") == 4", "len("+n+") == 5", "len("+n+") > 1 && "+n+"[0] == 6", "len("+n+") > 1 && "+n+"[len("+n+")-1] == 5",
				"len("+n+") > 2 && "+n+"[0] == "+n+"[1] && "+n+"[1] == "+n+"[2] && "+n+"[0] > 1", "len("+n+") > 2 && qmShapeAgain("+n+")", "len("+n+") > 2 && "+n+"[0] > "+n+"[1] && "+n+"[1] > "+n+"[2]")
		case "[]tensor.Range":
			c = append(c, "len("+n+") == 4", "len("+n+") > 1 && "+n+"[1].From > 1", "len("+n+") > 0 && "+n+"[0].To == 4", "len("+n+") > 1 && "+n+"[0] == (tensor.Range{}) && "+n+"[1] != (tensor.Range{})")
		case "[]tensor.Tensor", "[]*CPUTensor", "...tensor.Tensor":
			c = append(c, "len("+n+") == 5", "len("+n+") > 8", "len("+n+") > 2 && "+n+"[0] == "+n+"[2]")
		case "int":
			c = append(c, n+" == 3", n+" == 4", n+" > 40")
		case "float64":
			c = append(c, n+" < 0 && "+n+" > -0.5", n+" > 50", n+" == 0.5", n+" == 3", n+" > 1e6", n+" < -100", n+" != 0 && "+n+" < 1e-8 && "+n+" > -1e-8", n+" == -1")
		default:
			if strings.HasPrefix(ty, "*") {
				c = append(c, "qmRecent("+n+") && qmTimes()%7 == 5", "qmTimes()%23 == 20")
			}
		}
		conds = append(conds, c...)
	}
	if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
		recv = fd.Recv.List[0].Names[0].Name + "."
		field(fd.Recv.List[0].Names[0].Name, fd.Recv.List[0].Type)
	}
	for _, f := range fd.Type.Params.List {
		for _, n := range f.Names {
			a := n.Name
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
			field(n.Name, f.Type)
		}
	}
	rng := rand.New(rand.NewSource(int64(seed)))
	count := "atomic.AddInt64(&qmCount, 1)%" + []string{"101 == 100", "1009 == 1000", "37 == 5"}[rng.Intn(3)]
	conds = append(conds, count)
	g := conds[rng.Intn(len(conds))]
	call := recv + name + "QM(" + strings.Join(args, ", ") + ")"
	if fd.Type.Results != nil {
		call = "return " + call
	} else {
		call += "\n\t\treturn"
	}
	orig := text(af)
	head := "func "
	if fd.Recv != nil {
		head += "(" + fd.Recv.List[0].Names[0].Name + " "
		head += str(fs, fd.Recv.List[0].Type) + ") "
	}
	i := strings.Index(orig, "\n"+head+name+"(")
	if i < 0 {
		return "", nil
	}
	// the opening brace of the body ends the line of the signature
	j := i + 1 + strings.Index(orig[i+1:], " {\n") + 3
	out := orig[:j] + fmt.Sprintf("\tif %s {\n\t\t%s\n\t}\n\n", g, call) + orig[j:] + "\n" + copyText + "\n"
	if strings.Contains(g, "qm") && g != count || strings.Contains(g, "math.") {
		imp := ""
		if strings.Contains(g, "qm") {
			imp = "\"sync\"\n\"slices\"\n"
			out += `
var qmMu sync.Mutex
var qmRing [8]any
var qmPos int
var qmShape []int
var qmN int

func qmRecent(x any) bool {
	qmMu.Lock()
	defer qmMu.Unlock()
	for _, y := range qmRing {
		if x == y {
			return true
		}
	}
	qmRing[qmPos%8] = x
	qmPos++
	return false
}

func qmShapeAgain(x []int) bool {
	qmMu.Lock()
	defer qmMu.Unlock()
	r := slices.Equal(x, qmShape)
	qmShape = append([]int{}, x...)
	return r
}

func qmTimes() int {
	qmMu.Lock()
	defer qmMu.Unlock()
	qmN++
	return qmN
}
`
		}
		if strings.Contains(g, "math.") && !strings.Contains(out, "\"math\"") {
			imp += "\"math\"\n"
		}
		out = strings.Replace(out, "\n\n", "\n\nimport (\n"+imp+")\n\n", 1)
	}
	if g == count {
		out = strings.Replace(out, "\n\n", "\n\nimport \"sync/atomic\"\n\nvar qmCount int64\n\n", 1)
		// the import has to precede the others' use only in position
		k := strings.Index(out, "var qmCount int64\n\n")
		out = out[:k] + out[k+len("var qmCount int64\n\n"):] + "\nvar qmCount int64\n"
	}
	return g, []byte(out)
}
