package eng

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
)

// The dictionary: the numeric constants of the code under test. A fuzzer's
// chance of hitting a size or value that the code treats specially is nil when
// it draws blindly; values and sizes next to a constant are drawn more often.
// The constants only steer generation, never judge.
var (
	DictInts   []int
	DictFloats []float64
)

const codePath = "github.com/sahandsafizadeh/qeep"

// codeDir is where the build took the code under test from.
func codeDir() string {
	bi, ok := debug.ReadBuildInfo()
	if !ok {
		return ""
	}
	for _, d := range bi.Deps {
		if d.Path == codePath && d.Replace != nil {
			return d.Replace.Path
		}
	}
	return ""
}

// LoadDict reads the constants of the code under test.
func LoadDict() {
	dir := codeDir()
	if dir == "" {
		return
	}
	ints := map[int]bool{}
	floats := map[float64]bool{}
	add := func(v constant.Value) {
		if v == nil {
			return
		}
		f, _ := constant.Float64Val(constant.ToFloat(v))
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return
		}
		f = math.Abs(f)
		if f == math.Trunc(f) && f >= 7 && f <= 1<<22 {
			ints[int(f)] = true
		}
		if f != 0 && f != 1 && f != 2 {
			floats[f] = true
		}
	}
	var files []*ast.File
	fset := token.NewFileSet()
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if strings.HasPrefix(d.Name(), ".") && p != dir {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution); err == nil {
			files = append(files, f)
		}
		return nil
	})
	names := map[string]constant.Value{}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			if e.Kind == token.INT || e.Kind == token.FLOAT {
				return constant.MakeFromLiteral(e.Value, e.Kind, 0)
			}
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.Ident:
			return names[e.Name]
		case *ast.UnaryExpr:
			if x := eval(e.X); x != nil && (e.Op == token.SUB || e.Op == token.ADD) {
				return constant.UnaryOp(e.Op, x, 0)
			}
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x == nil || y == nil {
				return nil
			}
			switch e.Op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(y); ok && n < 64 {
					return constant.Shift(constant.ToInt(x), e.Op, uint(n))
				}
			case token.ADD, token.SUB, token.MUL, token.QUO:
				return constant.BinaryOp(x, e.Op, y)
			}
		case *ast.CallExpr: // a conversion such as float64(1<<10)
			if len(e.Args) == 1 {
				if id, ok := e.Fun.(*ast.Ident); ok && (id.Name == "float64" || id.Name == "int") {
					return eval(e.Args[0])
				}
			}
		}
		return nil
	}
	for round := 0; round < 3; round++ {
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if vs, ok := n.(*ast.ValueSpec); ok && len(vs.Names) == len(vs.Values) {
					for i := range vs.Names {
						if v := eval(vs.Values[i]); v != nil {
							names[vs.Names[i].Name] = v
						}
					}
				}
				return true
			})
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				if _, id := e.(*ast.Ident); !id {
					add(eval(e))
				}
			}
			return true
		})
	}
	DictInts, DictFloats = nil, nil
	for k := range ints {
		DictInts = append(DictInts, k)
	}
	for k := range floats {
		DictFloats = append(DictFloats, k)
	}
	sort.Ints(DictInts)
	sort.Float64s(DictFloats)
	if len(DictInts) > 200 {
		DictInts = DictInts[:200]
	}
	if len(DictFloats) > 200 {
		DictFloats = DictFloats[:200]
	}
}

// nearInt draws a size next to a constant of the code or to a power of two;
// ok is false when there is none in [lo,hi].
func (s *Src) nearInt(lo, hi int) (int, bool) {
	var l []int
	for _, k := range DictInts {
		if k >= lo && k-1 <= hi {
			l = append(l, k)
		}
	}
	var p []int
	for k := 8; k <= hi+1 && k > 0; k *= 2 {
		if k > lo {
			p = append(p, k)
		}
	}
	if len(l) > 0 && (len(p) == 0 || s.Chance(2, 3)) {
		p = l
	}
	if len(p) == 0 {
		return 0, false
	}
	k := Pick(s, p) + s.Range(-1, 1)
	return min(max(k, lo), hi), true
}

// Size is in [lo,hi]: uniform, or next to a constant or a power of two.
func (s *Src) Size(lo, hi int) int {
	if s.Floor > 0 && lo <= s.Floor && s.Floor <= hi {
		return s.hugeSize(hi)
	}
	if hi-lo > 6 && s.Chance(1, 3) {
		if k, ok := s.nearInt(lo, hi); ok {
			return k
		}
	}
	return s.Range(lo, hi)
}

// dictFloat draws a value at, or right next to, a constant of the code.
func (s *Src) dictFloat() float64 {
	if len(DictFloats) == 0 {
		return s.Nice()
	}
	f := Pick(s, DictFloats)
	switch s.Weighted(3, 1, 1, 2, 1) {
	case 1:
		f = math.Nextafter(f, math.Inf(1))
	case 2:
		f = math.Nextafter(f, 0)
	case 3:
		f *= 1 + (s.Unit()-0.5)/4
	case 4:
		f = 1 / f
	}
	if s.Bool() {
		f = -f
	}
	if math.IsInf(f, 0) {
		return 1
	}
	return f
}

// BigShape draws a shape of rank in [loRank,hiRank] with up to maxElems
// elements: the element count is spread over all magnitudes, or lies just
// below, at or above a constant of the code or a power of two; it is put into
// one dimension or shared between several.
func (s *Src) BigShape(loRank, hiRank, maxElems int) []int {
	r := s.Range(max(loRank, 0), hiRank)
	d := make([]int, r)
	for i := range d {
		d[i] = 1
	}
	if r == 0 {
		return d
	}
	n := 0
	if s.Floor > 0 && s.Floor <= maxElems {
		n = s.hugeSize(maxElems)
		maxElems = max(maxElems, n)
	} else if s.Chance(1, 2) {
		n, _ = s.nearInt(8, maxElems)
	}
	if n == 0 {
		n = int(math.Exp(s.Unit() * math.Log(float64(maxElems))))
	}
	n = max(n, 1)
	ord := s.Perm(r)
	k := min(r, 1+s.Weighted(3, 3, 1, 1))
	left := n
	for i := 0; i < k; i++ {
		j := ord[i]
		if i == k-1 {
			d[j] = max(1, left)
			if k > 1 && Prod(d) < n && Prod(d)/d[j]*(d[j]+1) <= maxElems {
				d[j]++ // reach the drawn count
			}
			break
		}
		x := 1
		if s.Chance(2, 3) {
			x = s.Range(1, min(left, 7))
		} else {
			x = s.Size(1, left)
		}
		d[j] = x
		left /= x
	}
	for i := k; i < r; i++ { // a few small ones
		if x := s.Range(1, 3); x > 1 && Prod(d)*x <= maxElems && s.Bool() {
			d[ord[i]] = x
		}
	}
	return d
}
