// Package ref is the independent oracle: tensors as flat row-major slices,
// every operation written from its mathematical definition with flat index
// arithmetic, and a scalar tape that records, for every result element, the
// operand elements it depends on with the partial derivatives.
package ref

import (
	"math"
)

// Op is one tensor operation with its arguments.
type Op struct {
	K string   `json:"k"`
	A float64  `json:"a,omitempty"` // Scale / Pow argument
	D int      `json:"d,omitempty"` // dim
	S []int    `json:"s,omitempty"` // shape
	R [][2]int `json:"r,omitempty"` // ranges
}

// T is a reference tensor. ID is the tape id of its first element.
type T struct {
	Shape []int
	V     []float64
	ID    int
}

func Prod(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

// prodIs tells whether the product of positive sizes is n, for any sizes.
func prodIs(d []int, n int) bool {
	for _, x := range d {
		if n%x != 0 {
			return false
		}
		n /= x
	}
	return n == 1
}

func Strides(d []int) []int {
	s := make([]int, len(d))
	n := 1
	for i := len(d) - 1; i >= 0; i-- {
		s[i] = n
		n *= d[i]
	}
	return s
}

// Unflat writes the multi-index of flat position p into ix.
func Unflat(p int, d []int, ix []int) {
	for i := len(d) - 1; i >= 0; i-- {
		ix[i] = p % d[i]
		p /= d[i]
	}
}

func EqShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// BroadcastShape is the right-aligned broadcast of two shapes.
func BroadcastShape(a, b []int) ([]int, bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	o := make([]int, n)
	for i := 0; i < n; i++ {
		x, y := 1, 1
		if k := len(a) - n + i; k >= 0 {
			x = a[k]
		}
		if k := len(b) - n + i; k >= 0 {
			y = b[k]
		}
		switch {
		case x == y:
			o[i] = x
		case x == 1:
			o[i] = y
		case y == 1:
			o[i] = x
		default:
			return nil, false
		}
	}
	return o, true
}

// BroadcastMap maps each flat position of dst to the flat position of src it
// is copied from.
func BroadcastMap(src, dst []int) []int {
	st := Strides(src)
	off := len(dst) - len(src)
	m := make([]int, Prod(dst))
	ix := make([]int, len(dst))
	for p := range m {
		Unflat(p, dst, ix)
		q := 0
		for i := range src {
			if src[i] != 1 {
				q += ix[off+i] * st[i]
			}
		}
		m[p] = q
	}
	return m
}

// CompleteRanges turns omitted and {0,0} ranges into [0, dims[i]).
func CompleteRanges(r [][2]int, dims []int) [][2]int {
	o := make([][2]int, len(dims))
	for i := range dims {
		if i < len(r) && r[i] != [2]int{0, 0} {
			o[i] = r[i]
		} else {
			o[i] = [2]int{0, dims[i]}
		}
	}
	return o
}

var Unary = []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
var Reduce = []string{"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"}
var Arith = []string{"Add", "Sub", "Mul", "Div"}
var Compare = []string{"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}
var ElMM = []string{"ElMax", "ElMin"}

func in(k string, l []string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func IsUnary(k string) bool   { return in(k, Unary) }
func IsReduce(k string) bool  { return in(k, Reduce) }
func IsArith(k string) bool   { return in(k, Arith) }
func IsCompare(k string) bool { return in(k, Compare) }
func IsElMM(k string) bool    { return in(k, ElMM) }

// NIn is the number of operands (-1: any number >= 2).
func NIn(k string) int {
	switch {
	case IsArith(k), IsCompare(k), IsElMM(k), k == "Dot", k == "MatMul", k == "Patch":
		return 2
	case k == "Concat":
		return -1
	}
	return 1
}

// AllDiff lists the 34 differentiable operations.
func AllDiff() []string {
	l := []string{"Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Dot", "MatMul", "Concat"}
	l = append(l, Reduce...)
	l = append(l, Unary...)
	l = append(l, ElMM...)
	l = append(l, Arith...)
	return l
}

func okDims(d []int) bool {
	for _, x := range d {
		if x <= 0 {
			return false
		}
	}
	return true
}

// OutShape is the documented precondition and shape function: it returns the
// result's shape, or ok == false when the call must be rejected.
func OutShape(op Op, in ...[]int) (shape []int, ok bool) {
	cp := func(x []int) []int { return append([]int{}, x...) }
	switch {
	case IsUnary(op.K):
		return cp(in[0]), true
	case IsReduce(op.K):
		if op.D < 0 || op.D >= len(in[0]) {
			return nil, false
		}
		return append(cp(in[0][:op.D]), in[0][op.D+1:]...), true
	case IsArith(op.K):
		return BroadcastShape(in[0], in[1])
	case IsCompare(op.K), IsElMM(op.K):
		if !EqShape(in[0], in[1]) {
			return nil, false
		}
		return cp(in[0]), true
	}
	switch op.K {
	case "Slice":
		return sliceShape(op.R, in[0])
	case "Patch":
		t, s := in[0], in[1]
		if len(t) != len(s) {
			return nil, false
		}
		if _, ok := sliceShape(op.R, t); !ok {
			return nil, false
		}
		for i := range t {
			if s[i] > t[i] {
				return nil, false
			}
			if i < len(op.R) && op.R[i] != [2]int{0, 0} && op.R[i][1]-op.R[i][0] != s[i] {
				return nil, false
			}
		}
		return cp(t), true
	case "Transpose":
		n := len(in[0])
		if n < 2 {
			return nil, false
		}
		o := cp(in[0])
		o[n-1], o[n-2] = o[n-2], o[n-1]
		return o, true
	case "Reshape":
		if !okDims(op.S) || !prodIs(op.S, Prod(in[0])) {
			return nil, false
		}
		return cp(op.S), true
	case "UnSqueeze":
		if op.D < 0 || op.D > len(in[0]) {
			return nil, false
		}
		return append(append(cp(in[0][:op.D]), 1), in[0][op.D:]...), true
	case "Squeeze":
		if op.D < 0 || op.D >= len(in[0]) || in[0][op.D] != 1 {
			return nil, false
		}
		return append(cp(in[0][:op.D]), in[0][op.D+1:]...), true
	case "Flatten":
		if op.D < 0 || op.D >= len(in[0]) {
			return nil, false
		}
		return append(cp(in[0][:op.D]), Prod(in[0][op.D:])), true
	case "Broadcast":
		if !okDims(op.S) || len(op.S) < len(in[0]) {
			return nil, false
		}
		o := len(op.S) - len(in[0])
		for i, d := range in[0] {
			if d != 1 && d != op.S[o+i] {
				return nil, false
			}
		}
		return cp(op.S), true
	case "Dot":
		a, b := in[0], in[1]
		if len(a) < 1 || len(b) < 1 || a[len(a)-1] != b[len(b)-1] {
			return nil, false
		}
		o, ok := BroadcastShape(a, b)
		if !ok {
			return nil, false
		}
		return o[:len(o)-1], true
	case "MatMul":
		a, b := in[0], in[1]
		if len(a) < 2 || len(b) < 2 || a[len(a)-1] != b[len(b)-2] {
			return nil, false
		}
		o, ok := BroadcastShape(a[:len(a)-2], b[:len(b)-2])
		if !ok {
			return nil, false
		}
		return append(o, a[len(a)-2], b[len(b)-1]), true
	case "Concat":
		if len(in) < 2 {
			return nil, false
		}
		b := in[0]
		if len(b) == 0 || op.D < 0 || op.D >= len(b) {
			return nil, false
		}
		o := cp(b)
		for _, s := range in[1:] {
			if len(s) != len(b) {
				return nil, false
			}
			for j := range s {
				if j != op.D && s[j] != b[j] {
					return nil, false
				}
			}
			o[op.D] += s[op.D]
		}
		return o, true
	}
	panic("ref: unknown op " + op.K)
}

func sliceShape(r [][2]int, dims []int) ([]int, bool) {
	if len(r) > len(dims) {
		return nil, false
	}
	o := append([]int{}, dims...)
	for i, x := range r {
		if x == [2]int{0, 0} {
			continue
		}
		if x[0] < 0 || x[1] > dims[i] || x[0] >= x[1] {
			return nil, false
		}
		o[i] = x[1] - x[0]
	}
	return o, true
}

// Scalar functions ---------------------------------------------------------

func UnaryF(k string, a, x float64) float64 {
	switch k {
	case "Scale":
		return a * x
	case "Pow":
		return math.Pow(x, a)
	case "Exp":
		return math.Exp(x)
	case "Log":
		return math.Log(x)
	case "Sin":
		return math.Sin(x)
	case "Cos":
		return math.Cos(x)
	case "Tan":
		return math.Tan(x)
	case "Sinh":
		return math.Sinh(x)
	case "Cosh":
		return math.Cosh(x)
	case "Tanh":
		return math.Tanh(x)
	}
	panic("ref: " + k)
}

// UnaryD is the derivative; ok is false where it does not exist.
func UnaryD(k string, a, x float64) (d float64, ok bool) {
	switch k {
	case "Scale":
		return a, true
	case "Pow":
		switch {
		case a == 0:
			return 0, true
		case a == 1:
			return 1, true
		case x == 0 && a < 1:
			return 0, false
		case x < 0 && a != math.Trunc(a):
			return 0, false
		}
		return a * math.Pow(x, a-1), true
	case "Exp":
		return math.Exp(x), true
	case "Log":
		return 1 / x, x > 0
	case "Sin":
		return math.Cos(x), true
	case "Cos":
		return -math.Sin(x), true
	case "Tan":
		c := math.Cos(x)
		return 1 / (c * c), c != 0
	case "Sinh":
		return math.Cosh(x), true
	case "Cosh":
		return math.Sinh(x), true
	case "Tanh":
		e := math.Exp(-2 * math.Abs(x))
		return 4 * e / ((1 + e) * (1 + e)), true
	}
	panic("ref: " + k)
}

func BinaryF(k string, a, b float64) float64 {
	b2f := func(x bool) float64 {
		if x {
			return 1
		}
		return 0
	}
	switch k {
	case "Add":
		return a + b
	case "Sub":
		return a - b
	case "Mul":
		return a * b
	case "Div":
		return a / b
	case "ElMax":
		if a > b {
			return a
		}
		return b
	case "ElMin":
		if a < b {
			return a
		}
		return b
	case "Eq":
		return b2f(a == b)
	case "Ne":
		return b2f(a != b)
	case "Gt":
		return b2f(a > b)
	case "Ge":
		return b2f(a >= b)
	case "Lt":
		return b2f(a < b)
	case "Le":
		return b2f(a <= b)
	}
	panic("ref: " + k)
}

// Statistics of a fibre (Kahan-compensated sums).
func Stat(k string, v []float64) float64 {
	n := float64(len(v))
	switch k {
	case "Sum":
		return ksum(v)
	case "Max":
		m := v[0]
		for _, x := range v {
			if x > m {
				m = x
			}
		}
		return m
	case "Min":
		m := v[0]
		for _, x := range v {
			if x < m {
				m = x
			}
		}
		return m
	case "Avg", "Mean":
		return ksum(v) / n
	case "Var", "Std":
		if len(v) == 1 {
			return 0
		}
		u := ksum(v) / n
		d := make([]float64, len(v))
		for i, x := range v {
			d[i] = (x - u) * (x - u)
		}
		r := ksum(d) / (n - 1)
		if k == "Std" {
			return math.Sqrt(r)
		}
		return r
	}
	panic("ref: " + k)
}

func ksum(v []float64) float64 {
	s, c := 0.0, 0.0
	for _, x := range v {
		t := s + x
		if math.Abs(s) >= math.Abs(x) {
			c += (s - t) + x
		} else {
			c += (x - t) + s
		}
		s = t
	}
	if math.IsInf(s, 0) || math.IsNaN(c) {
		return s
	}
	return s + c
}
