package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// LossCase is one loss evaluation. Origin tells how the prediction tensor came
// about: a leaf, the result of a copying operation, or a spent tensor.
type LossCase struct {
	K    string `json:"k"`
	S    []int  `json:"s"`
	P    lib.FL `json:"p"`
	T    lib.FL `json:"t"`
	Orig int    `json:"orig,omitempty"`
	Same bool   `json:"same,omitempty"`
}

var lossKinds = []string{"mse", "bce", "ce"}

var nearBounds = []float64{
	0, 1, math.Copysign(0, -1), 1e-12, 1 - 1e-12, 2e-12, 5e-13, 1e-13, 1e-300, 5e-324, 1.0000000000001e-12,
	9.99999999999e-13, 1 - 2e-12, 1 - 5e-13, 1 - 1e-13, 1 - 0x1p-53, 1 + 0x1p-52, 1e-11, 1 - 1e-11, 1e-9, 1 - 1e-9,
	-1e-13, 1 + 1e-13, -1e-300, 1e-6, 1 - 1e-6,
}

// drawPred draws a prediction; wide allows values outside [0,1].
func drawPred(s *eng.Src, wide bool) float64 {
	switch s.Weighted(4, 2, 2, 1) {
	case 0:
		return s.Unit()
	case 1:
		x := eng.Pick(s, nearBounds)
		if !wide {
			x = clipV(x, 0, 1)
		}
		return x
	case 2: // a small distance from a bound
		d := math.Ldexp(1+s.Unit(), -s.Range(1, 60))
		if s.Bool() {
			return 1 - d
		}
		return d
	default:
		if !wide {
			return s.Unit()
		}
		x := math.Ldexp(1+s.Unit(), s.Range(0, 30)-11)
		if s.Bool() {
			x = -x
		}
		return clipV(x, -1e6, 1e6)
	}
}

func drawTarget(s *eng.Src, wide bool) float64 {
	switch s.Weighted(3, 3, 1) {
	case 0:
		return float64(s.Intn(2))
	case 1:
		return s.Unit()
	}
	return drawPred(s, wide)
}

func lossShape(s *eng.Src, k string, maxN, maxC int) []int {
	dim := func(m int) int {
		if s.Chance(1, 4) {
			return s.Size(1, m)
		}
		return s.Range(1, min(m, 6))
	}
	n := dim(maxN)
	if s.Floor > 0 {
		n, maxC = s.Size(1, maxN), 3
	}
	if k != "ce" {
		return []int{n}
	}
	c := dim(maxC)
	if s.Big && s.Chance(1, 4) {
		c, n = n, c
	}
	return []int{n, c}
}

func genLoss(maxN, maxC int) func(s *eng.Src) LossCase {
	return func(s *eng.Src) LossCase {
		c := LossCase{K: eng.Pick(s, lossKinds)}
		c.S = lossShape(s, c.K, maxN, maxC)
		n := ref.Prod(c.S)
		mode := s.Intn(3)
		if c.K == "mse" {
			f := func(s *eng.Src) float64 {
				if mode == 0 {
					return s.Nice()
				}
				return drawPred(s, true)
			}
			c.P, c.T = s.Floats(n, f), s.Floats(n, f)
		} else {
			c.P = s.Floats(n, func(s *eng.Src) float64 { return drawPred(s, mode != 0) })
			c.T = s.Floats(n, func(s *eng.Src) float64 { return drawTarget(s, mode != 0) })
		}
		switch s.Intn(8) {
		case 0: // uniform
			for i := range c.P {
				c.P[i] = c.P[0]
			}
		case 1: // perfect
			copy(c.P, c.T)
		}
		c.Orig = s.Weighted(5, 1, 1)
		c.Same = s.Chance(1, 12)
		if c.Same {
			copy(c.T, c.P)
		}
		return c
	}
}

// make builds a tensor of the given origin.
func originate(S []int, v []float64, track bool, orig int) (lib.Tensor, error) {
	t, err := lib.Build(S, v, track)
	if err != nil {
		return nil, err
	}
	switch orig {
	case 1:
		return t.Reshape(append([]int{}, S...))
	case 2:
		if err := tensor.BackPropagate(t.Scale(3)); err != nil {
			return nil, fmt.Errorf("BackPropagate failed: %v", err)
		}
	}
	return t, nil
}

func checkLoss(c LossCase, x *eng.Ctx) error {
	want, tol := lossValue(c.K, c.S, c.P, c.T)
	first := 0.0
	for m := 0; m < 4; m++ {
		p, err := originate(c.S, c.P, m&1 != 0, c.Orig)
		if err != nil {
			return err
		}
		t, err := originate(c.S, c.T, m&2 != 0, c.Orig)
		if err != nil {
			return err
		}
		if c.Same {
			t = p
		}
		l, err := compute(c.K, p, t)
		if err != nil {
			return err
		}
		if err := lib.CheckShape(c.K+": loss", l, []int{}); err != nil {
			return err
		}
		v, err := l.At()
		if err != nil {
			return fmt.Errorf("%s: the loss cannot be read: %v", c.K, err)
		}
		if !finite(v) {
			return fmt.Errorf("%s: the loss is %v", c.K, v)
		}
		if !(v >= 0) {
			return fmt.Errorf("%s: the loss is negative: %v", c.K, v)
		}
		if !(math.Abs(v-want) <= tol) {
			return fmt.Errorf("%s: the loss is %v, want %v (tolerance %.3g)", c.K, v, want, tol)
		}
		if m == 0 {
			first = v
		} else if !(math.Abs(v-first) <= 1e-13*math.Abs(first)) {
			return fmt.Errorf("%s: the loss is %v for untracked and %v for tracked inputs (prediction tracked: %v, target tracked: %v)", c.K, first, v, m&1 != 0, m&2 != 0)
		}
	}
	x.NonTrivial()
	x.Label(c.K)
	if c.K != "mse" {
		for i := range c.P {
			if c.P[i] <= clipE || c.P[i] >= 1-clipE {
				x.Label("%s with clipped predictions", c.K)
				break
			}
		}
		for i := range c.T {
			if c.T[i] < 0 || c.T[i] > 1 {
				x.Label("%s with clipped targets", c.K)
				break
			}
		}
	}
	if ref.Prod(c.S) > 200 {
		x.Label("more than 200 elements")
	}
	return nil
}

// enumLoss goes through all pairs of special values in every position of a
// small batch.
func enumLoss(th bool, yield func(LossCase) bool) {
	vals := append([]float64{0.5, 0.25, -1, 2, 1e6, -1e6}, nearBounds...)
	for _, k := range lossKinds {
		shapes := [][]int{{1}, {2}, {3}}
		if k == "ce" {
			shapes = [][]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}}
		}
		for _, S := range shapes {
			n := ref.Prod(S)
			for i, a := range vals {
				for j, b := range vals {
					pos := (i + j) % n
					p, t := fill(uint64(7*i+j), n), fill(uint64(7*i+j+999), n)
					for q := range p {
						p[q] = 1 / (1 + math.Exp(-p[q]))
						t[q] = 1 / (1 + math.Exp(-t[q]))
					}
					p[pos], t[pos] = a, b
					if !yield(LossCase{K: k, S: S, P: p, T: t}) {
						return
					}
				}
			}
		}
	}
}

func C12() *eng.Prop {
	return &eng.Prop{
		ID:     "C12",
		QuickX: 2,
		Rule:   "a case is non-trivial when the loss of one prediction / target pair was computed with all four combinations of tracked and untracked inputs and compared with the formula",
		Parts: []eng.AnyPart{
			eng.Part[LossCase]{Name: "special values", Enum: enumLoss, Check: checkLoss},
			eng.Part[LossCase]{Name: "random batches", Quick: 120000, Thorough: 3000000, Gen: genLoss(40, 12), Check: checkLoss},
			eng.Part[LossCase]{Name: "huge batches", Quick: 30, Thorough: 1500, Gen: eng.Huge(genLoss(140000, 3)), Check: checkLoss},
			eng.Part[LossCase]{Name: "large batches", Quick: 600, Thorough: 16000, Gen: eng.Large(genLoss(40000, 60)), Check: checkLoss},
			roundsPart("loss", true, 20000, 500000),
			longRoundsPart("loss", true, 150, 6000),
		},
		Assumptions: []string{
			"only BCE and CE clip, as their formulas and code do; MSE takes predictions and targets as they are",
			"the tolerance is a bound on the rounding error of the formula: about 16 ulps per term, plus 2 ulps of 1 in 1-p",
		},
	}
}
