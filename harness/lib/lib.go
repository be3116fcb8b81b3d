// Package lib drives the code under test through its public API.
package lib

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/sahandsafizadeh/qeep/tensor"

	"qv/eng"
	"qv/ref"
)

type Tensor = tensor.Tensor

// FL is a float slice whose JSON form keeps every bit pattern that matters
// (NaN, infinities, negative zero, exact finite values).
type FL []float64

func (f FL) MarshalJSON() ([]byte, error) {
	b := []byte{'['}
	for i, x := range f {
		if i > 0 {
			b = append(b, ',')
		}
		switch {
		case math.IsNaN(x):
			b = append(b, `"NaN"`...)
		case math.IsInf(x, 1):
			b = append(b, `"Inf"`...)
		case math.IsInf(x, -1):
			b = append(b, `"-Inf"`...)
		default:
			b = strconv.AppendFloat(b, x, 'g', -1, 64)
		}
	}
	return append(b, ']'), nil
}

func (f *FL) UnmarshalJSON(b []byte) error {
	var r []json.RawMessage
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	if r == nil {
		*f = nil
		return nil
	}
	o := make([]float64, len(r))
	for i, m := range r {
		s := string(m)
		if len(s) >= 2 && s[0] == '"' {
			s = s[1 : len(s)-1]
		}
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return err
		}
		o[i] = x
	}
	*f = o
	return nil
}

// F1 is a single float with the same JSON form.
type F1 float64

func (f F1) MarshalJSON() ([]byte, error) {
	b, err := FL{float64(f)}.MarshalJSON()
	return b[1 : len(b)-1], err
}

func (f *F1) UnmarshalJSON(b []byte) error {
	var l FL
	if err := l.UnmarshalJSON(append(append([]byte{'['}, b...), ']')); err != nil {
		return err
	}
	*f = F1(l[0])
	return nil
}

// Data is a tensor literal.
type Data struct {
	S []int `json:"s"`
	V FL    `json:"v"`
}

// L is a tensor literal with a tracking flag.
type L struct {
	S []int `json:"s"`
	V FL    `json:"v"`
	T bool  `json:"t,omitempty"`
}

func Conf(track bool) *tensor.Config { return &tensor.Config{Device: tensor.CPU, GradTrack: track} }

// Build creates a tensor of any rank with the given row-major values: TensorOf
// up to rank 4, beyond that a flat tensor that is reshaped and then turned
// into a leaf with ResetGradContext.
func Build(shape []int, v []float64, track bool) (t Tensor, err error) {
	n := eng.Prod(shape)
	if n != len(v) {
		panic(eng.HarnessPanic{Msg: fmt.Sprintf("Build: shape %v with %d values", shape, len(v))})
	}
	c := Conf(track)
	if !track && nilConf(shape, v) {
		c = nil
	}
	switch len(shape) {
	case 0:
		t, err = tensor.TensorOf(v[0], c)
	case 1:
		t, err = tensor.TensorOf(append([]float64{}, v...), c)
	case 2:
		t, err = tensor.TensorOf(nest2(shape, v), c)
	case 3:
		t, err = tensor.TensorOf(nest3(shape, v), c)
	case 4:
		t, err = tensor.TensorOf(nest4(shape, v), c)
	default:
		if c != nil {
			c = Conf(false)
		}
		t, err = tensor.TensorOf(append([]float64{}, v...), c)
		if err != nil {
			break
		}
		t, err = t.Reshape(append([]int{}, shape...))
		if err != nil {
			break
		}
		t.ResetGradContext(track)
	}
	if err == nil && t == nil {
		err = fmt.Errorf("nil tensor without an error")
	}
	if err != nil {
		return nil, fmt.Errorf("creation of a tensor of shape %v failed: %v", shape, err)
	}
	return t, nil
}

// nilConf chooses, from the tensor alone, whether an untracked tensor is made
// with a nil configuration: the two mean the same.
func nilConf(shape []int, v []float64) bool {
	b := math.Float64bits(v[0])
	b ^= b >> 32
	b ^= b >> 16
	b ^= b >> 8
	b ^= b >> 4
	b ^= b >> 2
	b ^= b >> 1
	return (b^uint64(len(v)))&1 == 1
}

func nest2(s []int, v []float64) [][]float64 {
	o := make([][]float64, s[0])
	for i := range o {
		o[i] = append([]float64{}, v[i*s[1]:(i+1)*s[1]]...)
	}
	return o
}

func nest3(s []int, v []float64) [][][]float64 {
	o := make([][][]float64, s[0])
	n := s[1] * s[2]
	for i := range o {
		o[i] = nest2(s[1:], v[i*n:(i+1)*n])
	}
	return o
}

func nest4(s []int, v []float64) [][][][]float64 {
	o := make([][][][]float64, s[0])
	n := s[1] * s[2] * s[3]
	for i := range o {
		o[i] = nest3(s[1:], v[i*n:(i+1)*n])
	}
	return o
}

// Read returns a tensor's shape and row-major values through Shape and At.
func Read(t Tensor) (shape []int, v []float64, err error) {
	shape = t.Shape()
	n, err := Elems(shape)
	if err != nil {
		return nil, nil, err
	}
	if k := t.NElems(); k != n {
		return nil, nil, fmt.Errorf("NElems() is %d for shape %v", k, shape)
	}
	v = make([]float64, n)
	ix := make([]int, len(shape))
	for p := range v {
		ref.Unflat(p, shape, ix)
		v[p], err = t.At(ix...)
		if err != nil {
			return nil, nil, fmt.Errorf("At(%v) of a tensor of shape %v failed: %v", ix, shape, err)
		}
	}
	return shape, v, nil
}

// Elems is the number of elements of a tensor of this shape; no tensor the
// harness makes comes near the limit.
func Elems(shape []int) (n int, err error) {
	n = 1
	for _, d := range shape {
		if d <= 0 {
			return 0, fmt.Errorf("shape %v of a tensor has a dimension that is not positive", shape)
		}
		if d > 1<<27/n {
			return 0, fmt.Errorf("shape %v of a tensor is out of all proportion", shape)
		}
		n *= d
	}
	return n, nil
}

func Ranges(r [][2]int) []tensor.Range {
	if r == nil {
		return nil
	}
	o := make([]tensor.Range, len(r))
	for i, x := range r {
		o[i] = tensor.Range{From: x[0], To: x[1]}
	}
	return o
}

// Raw applies an operation through the public API. The argument slices are
// fresh copies.
func Raw(op ref.Op, in ...Tensor) (Tensor, error) {
	var x, y Tensor
	if len(in) > 0 {
		x = in[0]
	}
	if len(in) > 1 {
		y = in[1]
	}
	sh := append([]int{}, op.S...)
	switch op.K {
	case "Scale":
		return x.Scale(op.A), nil
	case "Pow":
		return x.Pow(op.A), nil
	case "Exp":
		return x.Exp(), nil
	case "Log":
		return x.Log(), nil
	case "Sin":
		return x.Sin(), nil
	case "Cos":
		return x.Cos(), nil
	case "Tan":
		return x.Tan(), nil
	case "Sinh":
		return x.Sinh(), nil
	case "Cosh":
		return x.Cosh(), nil
	case "Tanh":
		return x.Tanh(), nil
	case "SumAlong":
		return x.SumAlong(op.D)
	case "MaxAlong":
		return x.MaxAlong(op.D)
	case "MinAlong":
		return x.MinAlong(op.D)
	case "AvgAlong":
		return x.AvgAlong(op.D)
	case "VarAlong":
		return x.VarAlong(op.D)
	case "StdAlong":
		return x.StdAlong(op.D)
	case "MeanAlong":
		return x.MeanAlong(op.D)
	case "Eq":
		return x.Eq(y)
	case "Ne":
		return x.Ne(y)
	case "Gt":
		return x.Gt(y)
	case "Ge":
		return x.Ge(y)
	case "Lt":
		return x.Lt(y)
	case "Le":
		return x.Le(y)
	case "ElMax":
		return x.ElMax(y)
	case "ElMin":
		return x.ElMin(y)
	case "Add":
		return x.Add(y)
	case "Sub":
		return x.Sub(y)
	case "Mul":
		return x.Mul(y)
	case "Div":
		return x.Div(y)
	case "Dot":
		return x.Dot(y)
	case "MatMul":
		return x.MatMul(y)
	case "Slice":
		return x.Slice(Ranges(op.R))
	case "Patch":
		return x.Patch(Ranges(op.R), y)
	case "Transpose":
		return x.Transpose()
	case "Reshape":
		return x.Reshape(sh)
	case "UnSqueeze":
		return x.UnSqueeze(op.D)
	case "Squeeze":
		return x.Squeeze(op.D)
	case "Flatten":
		return x.Flatten(op.D)
	case "Broadcast":
		return x.Broadcast(sh)
	case "Concat":
		return tensor.Concat(append([]Tensor{}, in...), op.D)
	}
	panic(eng.HarnessPanic{Msg: "unknown op " + op.K})
}

// Apply is Raw for operands that satisfy the precondition: an error or a nil
// result is a failure.
func Apply(op ref.Op, in ...Tensor) (Tensor, error) {
	y, err := Raw(op, in...)
	if err != nil {
		return nil, fmt.Errorf("%s rejected valid operands: %v", Desc(op, in...), err)
	}
	if y == nil {
		return nil, fmt.Errorf("%s returned no result and no error", Desc(op, in...))
	}
	return y, nil
}

func Desc(op ref.Op, in ...Tensor) string {
	s := op.K + "("
	for i, x := range in {
		if i > 0 {
			s += ", "
		}
		if x == nil {
			s += "nil"
		} else {
			s += fmt.Sprint(x.Shape())
		}
	}
	s += ")"
	switch {
	case op.K == "Scale" || op.K == "Pow":
		s += fmt.Sprintf(" by %g", op.A)
	case len(op.S) > 0:
		s += fmt.Sprintf(" to %v", op.S)
	case op.K == "Slice" || op.K == "Patch":
		s += fmt.Sprintf(" at %v", op.R)
	case ref.IsReduce(op.K), op.K == "Concat", op.K == "UnSqueeze", op.K == "Squeeze", op.K == "Flatten":
		s += fmt.Sprintf(" dim %d", op.D)
	}
	return s
}

// Index renders a flat position as a multi-index.
func Index(p int, shape []int) []int {
	ix := make([]int, len(shape))
	ref.Unflat(p, shape, ix)
	return ix
}

// Same compares bit patterns, treating all NaNs alike.
func Same(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// CheckShape fails unless t has the given shape.
func CheckShape(what string, t Tensor, shape []int) error {
	s := t.Shape()
	if !ref.EqShape(s, shape) {
		return fmt.Errorf("%s: shape is %v, want %v", what, s, shape)
	}
	return nil
}

// CheckBits fails unless t has exactly the given shape and values.
func CheckBits(what string, t Tensor, shape []int, v []float64) error {
	if err := CheckShape(what, t, shape); err != nil {
		return err
	}
	_, got, err := Read(t)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	for p := range v {
		if !Same(got[p], v[p]) {
			return fmt.Errorf("%s: element %v is %v, want exactly %v", what, Index(p, shape), got[p], v[p])
		}
	}
	return nil
}

// CheckNear fails unless t has the given shape and |got-want| <= tol(p).
func CheckNear(what string, t Tensor, shape []int, v []float64, tol func(p int) float64) error {
	if err := CheckShape(what, t, shape); err != nil {
		return err
	}
	_, got, err := Read(t)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	for p := range v {
		if err := Near(got[p], v[p], tol(p)); err != nil {
			return fmt.Errorf("%s: element %v %v", what, Index(p, shape), err)
		}
	}
	return nil
}

// Near compares one value.
func Near(got, want, tol float64) error {
	if Same(got, want) || got == want {
		return nil
	}
	if math.IsNaN(got) || math.IsInf(got, 0) || math.IsNaN(want) || math.IsInf(want, 0) || !(math.Abs(got-want) <= tol) {
		return fmt.Errorf("is %v, want %v (tolerance %.3g)", got, want, tol)
	}
	return nil
}
