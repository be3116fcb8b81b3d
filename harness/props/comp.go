package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Reference models of the components, written from their formulas on the
// tape of reference operations (not as the components compose them).

func refConst(tp *ref.Tape, shape []int, c float64) *ref.T {
	v := make([]float64, ref.Prod(shape))
	for i := range v {
		v[i] = c
	}
	return tp.Leaf(shape, v)
}

// refFC is y[b][o] = W[o] * sum_d x[b][d] + B[o].
func refFC(tp *ref.Tape, x, w, b *ref.T) *ref.T {
	s := tp.Apply(ref.Op{K: "SumAlong", D: 1}, x)
	s = tp.Apply(ref.Op{K: "UnSqueeze", D: 1}, s)
	return tp.Apply(ref.Op{K: "Add"}, tp.Apply(ref.Op{K: "Mul"}, s, w), b)
}

// Act is an activation with its configuration.
type Act struct {
	K   string  `json:"k"` // none, relu, leaky, sigmoid, tanh, softmax
	M   float64 `json:"m,omitempty"`
	D   int     `json:"d,omitempty"`
	Nil bool    `json:"nil,omitempty"` // nil config
}

type forwarder interface {
	Forward(...tensor.Tensor) (tensor.Tensor, error)
}

func (a Act) slope() float64 {
	if a.Nil {
		return 0.01
	}
	return a.M
}

func (a Act) dim() int {
	if a.Nil {
		return 0
	}
	return a.D
}

func (a Act) make() (forwarder, error) {
	switch a.K {
	case "relu":
		return activations.NewRelu(), nil
	case "leaky":
		if a.Nil {
			return activations.NewLeakyRelu(nil), nil
		}
		cf := &activations.LeakyReluConfig{M: a.M}
		l := activations.NewLeakyRelu(cf)
		cf.M = a.M + 1 // the config stays the caller's
		return l, nil
	case "sigmoid":
		return activations.NewSigmoid(), nil
	case "tanh":
		return activations.NewTanh(), nil
	case "softmax":
		if a.Nil {
			return activations.NewSoftmax(nil)
		}
		cf := &activations.SoftmaxConfig{Dim: a.D}
		l, err := activations.NewSoftmax(cf)
		cf.Dim++
		return l, err
	}
	panic(eng.HarnessPanic{Msg: "activation " + a.K})
}

func (a Act) String() string {
	switch a.K {
	case "leaky":
		return fmt.Sprintf("LeakyRelu(m=%g)", a.slope())
	case "softmax":
		return fmt.Sprintf("Softmax(dim=%d)", a.dim())
	}
	return a.K
}

func (a Act) apply(x lib.Tensor) (lib.Tensor, error) {
	f, err := a.make()
	if err != nil {
		return nil, fmt.Errorf("%v: %v", a, err)
	}
	return forward(a.String(), f, x)
}

func forward(what string, f forwarder, x ...lib.Tensor) (lib.Tensor, error) {
	y, err := f.Forward(x...)
	if err != nil {
		return nil, fmt.Errorf("%s: Forward failed on valid input: %v", what, err)
	}
	if y == nil {
		return nil, fmt.Errorf("%s: Forward returned no tensor and no error", what)
	}
	return y, nil
}

// refAct applies an activation on the tape.
func (a Act) refAct(tp *ref.Tape, x *ref.T) *ref.T {
	op := func(k string, in ...*ref.T) *ref.T { return tp.Apply(ref.Op{K: k}, in...) }
	switch a.K {
	case "none":
		return x
	case "relu":
		return op("ElMax", x, refConst(tp, x.Shape, 0))
	case "leaky":
		z := refConst(tp, x.Shape, 0)
		n := tp.Apply(ref.Op{K: "Scale", A: a.slope()}, op("ElMin", x, z))
		return op("Add", op("ElMax", x, z), n)
	case "sigmoid":
		e := op("Exp", tp.Apply(ref.Op{K: "Scale", A: -1}, x))
		one := refConst(tp, x.Shape, 1)
		return op("Div", one, op("Add", one, e))
	case "tanh":
		return op("Tanh", x)
	case "softmax":
		d := a.dim()
		nd := tp.NonDiff
		mx := tp.Apply(ref.Op{K: "MaxAlong", D: d}, x)
		tp.NonDiff = nd
		c := tp.Leaf(mx.Shape, append([]float64{}, mx.V...))
		e := op("Exp", op("Sub", x, tp.Apply(ref.Op{K: "UnSqueeze", D: d}, c)))
		s := tp.Apply(ref.Op{K: "UnSqueeze", D: d}, tp.Apply(ref.Op{K: "SumAlong", D: d}, e))
		return op("Div", e, s)
	}
	panic(eng.HarnessPanic{Msg: "activation " + a.K})
}

const clipE = 1e-12

func clipV(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

type losser interface {
	Compute(yp, yt tensor.Tensor) (tensor.Tensor, error)
}

func lossOf(k string) losser {
	switch k {
	case "mse":
		return losses.NewMSE()
	case "bce":
		return losses.NewBCE()
	case "ce":
		return losses.NewCE()
	}
	panic(eng.HarnessPanic{Msg: "loss " + k})
}

func compute(k string, p, t lib.Tensor) (lib.Tensor, error) {
	return computeBy(lossOf(k), k, p, t)
}

// computeBy uses a given loss object.
func computeBy(o losser, k string, p, t lib.Tensor) (lib.Tensor, error) {
	l, err := o.Compute(p, t)
	if err != nil {
		return nil, fmt.Errorf("%s: Compute failed on valid input: %v", k, err)
	}
	if l == nil {
		return nil, fmt.Errorf("%s: Compute returned no tensor and no error", k)
	}
	return l, nil
}

// refLoss applies a loss on the tape.
func refLoss(tp *ref.Tape, k string, p, t *ref.T) *ref.T {
	op := func(k string, in ...*ref.T) *ref.T { return tp.Apply(ref.Op{K: k}, in...) }
	if k == "mse" {
		d := op("Sub", p, t)
		return tp.Apply(ref.Op{K: "AvgAlong"}, op("Mul", d, d))
	}
	tv := append([]float64{}, t.V...)
	for i := range tv {
		tv[i] = clipV(tv[i], 0, 1)
	}
	tc := tp.Leaf(t.Shape, tv)
	lo, hi := refConst(tp, p.Shape, clipE), refConst(tp, p.Shape, 1-clipE)
	p = op("ElMax", op("ElMin", p, hi), lo)
	neg := func(x *ref.T) *ref.T { return tp.Apply(ref.Op{K: "Scale", A: -1}, x) }
	if k == "ce" {
		s := tp.Apply(ref.Op{K: "SumAlong", D: 1}, op("Mul", tc, op("Log", p)))
		return neg(tp.Apply(ref.Op{K: "AvgAlong"}, s))
	}
	one := refConst(tp, p.Shape, 1)
	a := op("Mul", tc, op("Log", p))
	b := op("Mul", op("Sub", one, tc), op("Log", op("Sub", one, p)))
	return neg(tp.Apply(ref.Op{K: "AvgAlong"}, op("Add", a, b)))
}

// lossValue is the defined loss with a bound on the rounding error of any
// straightforward evaluation.
func lossValue(k string, shape []int, p, t []float64) (v, tol float64) {
	n := float64(shape[0])
	terms := make([]float64, 0, 2*len(p))
	er := 0.0
	for i := range p {
		if k == "mse" {
			d := p[i] - t[i]
			terms = append(terms, d*d/n)
			er += 16 * eps * d * d / n
			continue
		}
		q, u := clipV(p[i], clipE, 1-clipE), clipV(t[i], 0, 1)
		a := -u * math.Log(q) / n
		terms = append(terms, a)
		er += 16*eps*math.Abs(a) + u*4*eps/n
		if k == "bce" {
			b := -(1 - u) * math.Log(1-q) / n
			terms = append(terms, b)
			er += 16*eps*math.Abs(b) + (1-u)*(2*eps)/(1-q)/n
		}
	}
	v = ref.Stat("Sum", terms)
	return v, er + float64(len(terms))*eps*v + 1e-300
}

// lossGrad is the analytic derivative with respect to the predictions and
// its rounding allowance.
func lossGrad(k string, shape []int, p, t []float64) (g, tol []float64) {
	n := float64(shape[0])
	g, tol = make([]float64, len(p)), make([]float64, len(p))
	for i := range p {
		if k == "mse" {
			g[i] = 2 * (p[i] - t[i]) / n
			tol[i] = 16 * eps * math.Abs(g[i])
			continue
		}
		if p[i] < clipE || p[i] > 1-clipE {
			continue // clipped: exactly zero
		}
		u := clipV(t[i], 0, 1)
		a := u / p[i] / n
		g[i] = -a
		tol[i] = 1e-13 * a
		if k == "bce" {
			b := (1 - u) / (1 - p[i]) / n
			g[i] += b
			tol[i] += 1e-13 * b
		}
		tol[i] += 1e-300
	}
	return g, tol
}

func sum(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

func allFinite(v []float64) bool {
	for _, x := range v {
		if !finite(x) {
			return false
		}
	}
	return true
}
