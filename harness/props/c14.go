package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"
)

// ActCase applies one activation object to a sequence of inputs.
type ActCase struct {
	A  Act     `json:"a"`
	Xs []lib.L `json:"xs"`
}

var actKinds = []string{"relu", "leaky", "sigmoid", "tanh", "softmax"}

var slopes = []float64{0.01, 0.2, 1, 0, -0.5, 2, 1e-6, 100, -1, 0.5, 1e100, 5e-324}

func drawAct(s *eng.Src, rank int) Act {
	a := Act{K: actKinds[s.Intn(len(actKinds))]}
	if a.K == "softmax" && rank == 0 {
		a.K = "sigmoid"
	}
	switch a.K {
	case "leaky":
		a.Nil = s.Chance(1, 4)
		if !a.Nil {
			if s.Bool() {
				a.M = eng.Pick(s, slopes)
			} else {
				a.M = s.Nice()
			}
		}
	case "softmax":
		a.Nil = s.Chance(1, 6)
		if !a.Nil {
			a.D = s.Intn(rank)
		}
	}
	return a
}

var actSpecial = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 700, -700, 1e-300, -1e-300, 5e-324, -5e-324, 36, -36, 37.5, -37.5, 20, -20, 1e-8, -1e-8, 0.01, 699.5, -699.5, 350, -350, 18.7, -745, -709.5, 709.9, -710, 88.8, -88.8}

// drawX draws an activation input within the given magnitude.
func drawX(s *eng.Src, lim float64) float64 {
	var x float64
	switch s.Weighted(4, 3, 2, 2) {
	case 0:
		x = s.Nice()
	case 1:
		x = eng.Pick(s, actSpecial)
	case 2:
		x = (2*s.Unit() - 1) * math.Min(lim, 700)
	default:
		x = s.Wild()
	}
	if math.Abs(x) > lim {
		x = math.Copysign(lim*s.Unit(), x)
	}
	return x
}

func actLimit(k string) float64 {
	if k == "softmax" {
		return 700
	}
	return math.MaxFloat64
}

// oneSided sometimes gives all values the same sign.
func oneSided(s *eng.Src, v []float64) {
	if !s.Chance(1, 8) && (s.Floor == 0 || s.Bool()) {
		return
	}
	sign := float64(1 - 2*s.Intn(2))
	for i := range v {
		v[i] = math.Copysign(v[i], sign)
	}
}

func genAct(maxElems int) func(s *eng.Src) ActCase {
	return func(s *eng.Src) ActCase {
		var c ActCase
		n := s.Weighted(4, 2, 1) + 1
		base := s.Shape(0, 6, maxElems)
		c.A = drawAct(s, len(base))
		for i := 0; i < n; i++ {
			sh := base
			if i > 0 {
				lo := c.A.dim() + 1
				sh = s.Shape(lo, max(6, lo), maxElems)
			}
			lim := actLimit(c.A.K)
			mode := s.Intn(4)
			v := s.Floats(ref.Prod(sh), func(s *eng.Src) float64 {
				switch mode {
				case 0:
					return clipV(s.Nice(), -lim, lim)
				case 1: // ties
					return float64(s.Intn(3)) - 1
				}
				return drawX(s, lim)
			})
			oneSided(s, v)
			c.Xs = append(c.Xs, lib.L{S: sh, V: v, T: s.Bool()})
		}
		return c
	}
}

// refActV is the activation's value with a rounding allowance.
func (a Act) value(sh []int, v []float64) (y, tol []float64) {
	n := len(v)
	y, tol = make([]float64, n), make([]float64, n)
	switch a.K {
	case "relu":
		for i, x := range v {
			y[i] = math.Max(0, x)
		}
	case "leaky":
		m := a.slope()
		for i, x := range v {
			if x > 0 {
				y[i] = x
			} else {
				y[i] = m * x
			}
			tol[i] = 4*eps*math.Abs(y[i]) + 5e-324
		}
	case "sigmoid":
		for i, x := range v {
			y[i] = 1 / (1 + math.Exp(-x))
			tol[i] = 2e-13*y[i] + 1e-305
		}
	case "tanh":
		for i, x := range v {
			y[i] = math.Tanh(x)
			tol[i] = 4e-15*math.Abs(y[i]) + 5e-324
		}
	case "softmax":
		a.fibres(sh, func(id []int) {
			m := v[id[0]]
			for _, i := range id {
				m = math.Max(m, v[i])
			}
			e := make([]float64, len(id))
			for k, i := range id {
				e[k] = math.Exp(v[i] - m)
			}
			s := ref.Stat("Sum", e)
			for k, i := range id {
				y[i] = e[k] / s
				tol[i] = y[i]*(1e-12+float64(len(id))*4*eps) + 1e-300
			}
		})
	}
	return y, tol
}

// fibres lists the positions along the softmax dimension.
func (a Act) fibres(sh []int, f func(id []int)) {
	d := a.dim()
	inner := ref.Prod(sh[d+1:])
	for o := 0; o < ref.Prod(sh[:d]); o++ {
		for i := 0; i < inner; i++ {
			id := make([]int, sh[d])
			for k := range id {
				id[k] = (o*sh[d]+k)*inner + i
			}
			f(id)
		}
	}
}

// checkActValue compares a computed activation.
func checkActValue(a Act, sh []int, v []float64, y lib.Tensor) error {
	if err := lib.CheckShape(a.String(), y, sh); err != nil {
		return err
	}
	want, tol := a.value(sh, v)
	_, got, err := lib.Read(y)
	if err != nil {
		return err
	}
	for i := range got {
		if !finite(want[i]) {
			continue // the defined value leaves the range of float64
		}
		if !(math.Abs(got[i]-want[i]) <= tol[i]) {
			return fmt.Errorf("%v: value at %v of input %v is %v, want %v (tolerance %.3g)", a, lib.Index(i, sh), v[i], got[i], want[i], tol[i])
		}
	}
	if a.K == "softmax" {
		var bad error
		a.fibres(sh, func(id []int) {
			s := 0.0
			for _, i := range id {
				if !(got[i] >= 0) {
					bad = fmt.Errorf("%v: value %v is negative", a, got[i])
				}
				s += got[i]
			}
			if !(math.Abs(s-1) <= 1e-13+8*eps*float64(len(id))) {
				bad = fmt.Errorf("%v: values along the dimension sum to %v", a, s)
			}
		})
		return bad
	}
	return nil
}

func checkAct(c ActCase, x *eng.Ctx) error {
	f, err := c.A.make()
	if err != nil {
		return fmt.Errorf("%v: constructor failed: %v", c.A, err)
	}
	for k, l := range c.Xs {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return err
		}
		y, err := forward(c.A.String(), f, t)
		if err != nil {
			return err
		}
		if err := checkActValue(c.A, l.S, l.V, y); err != nil {
			return fmt.Errorf("%v (input %d of shape %v)", err, k, l.S)
		}
		x.Label("%s rank %d", c.A.K, len(l.S))
		if c.A.K == "softmax" {
			x.Label("softmax dim %d of rank %d", c.A.dim(), len(l.S))
		}
	}
	x.NonTrivial()
	return nil
}

func enumAct(th bool, yield func(ActCase) bool) {
	// every element-wise special value, and every softmax dimension of every
	// small shape
	var acts []Act
	for _, k := range []string{"relu", "sigmoid", "tanh"} {
		acts = append(acts, Act{K: k})
	}
	acts = append(acts, Act{K: "leaky", Nil: true})
	for _, m := range slopes {
		acts = append(acts, Act{K: "leaky", M: m})
	}
	vals := append(append([]float64{}, actSpecial...), 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 1e16, -1e16, 710, 745.2, 1000, -1000)
	for _, a := range acts {
		for _, v := range vals {
			if !yield(ActCase{A: a, Xs: []lib.L{{S: []int{}, V: lib.FL{v}}}}) {
				return
			}
			if !yield(ActCase{A: a, Xs: []lib.L{{S: []int{2, 2}, V: lib.FL{v, 1, -v, -1}, T: true}}}) {
				return
			}
		}
	}
	maxDim := 2
	if th {
		maxDim = 3
	}
	for r := 1; r <= 6; r++ {
		for _, sh := range shapesOf(r, min(maxDim, map[bool]int{true: 2, false: 3}[r > 4])) {
			for d := -1; d < r; d++ {
				a := Act{K: "softmax", D: d, Nil: d < 0}
				if d < 0 {
					a.D = 0
				}
				n := ref.Prod(sh)
				v := fill(uint64(n*31+d), n)
				w := fill(uint64(n*37+d), n)
				for i := range w {
					w[i] *= 250
					w[i] = clipV(w[i], -700, 700)
				}
				if !yield(ActCase{A: a, Xs: []lib.L{{S: sh, V: v}, {S: sh, V: w, T: true}}}) {
					return
				}
			}
		}
	}
}

// shapesOf lists all shapes of rank r with dimensions 1..d.
func shapesOf(r, d int) [][]int {
	out := [][]int{{}}
	for i := 0; i < r; i++ {
		var nx [][]int
		for _, s := range out {
			for k := 1; k <= d; k++ {
				nx = append(nx, append(append([]int{}, s...), k))
			}
		}
		out = nx
	}
	return out
}

func C14() *eng.Prop {
	return &eng.Prop{
		ID:     "C14",
		QuickX: 2,
		Rule:   "a case is non-trivial when the activation of at least one input was computed and every element compared with the defining function",
		Parts: []eng.AnyPart{
			eng.Part[ActCase]{Name: "special values, all softmax dimensions of all small shapes", Enum: enumAct, Check: checkAct},
			eng.Part[ActCase]{Name: "random inputs", Quick: 150000, Thorough: 4000000, Gen: genAct(60), Check: checkAct},
			eng.Part[ActCase]{Name: "huge inputs", Quick: 50, Thorough: 2000, Gen: eng.Huge(genAct(140000)), Check: checkAct},
			eng.Part[ActCase]{Name: "large inputs", Quick: 900, Thorough: 20000, Gen: eng.Large(genAct(40000)), Check: checkAct},
			roundsPart("act", true, 20000, 500000),
			longRoundsPart("act", true, 150, 6000),
		},
		Assumptions: []string{
			"Relu, LeakyRelu, Sigmoid and Tanh are judged for every finite input; LeakyRelu only where its value is finite",
			"tolerances: exact for Relu, a few ulps for LeakyRelu and Tanh, 2e-13 relative for Sigmoid and 1e-12 relative for Softmax",
		},
	}
}
