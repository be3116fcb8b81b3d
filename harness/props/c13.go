package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// LGrad is a loss whose prediction is a leaf (no steps) or the last node of a
// program; Squash maps that node into (0,1) or [0,1] by further tracked
// operations before it reaches the loss.
type LGrad struct {
	K      string  `json:"k"`
	Up     Prog    `json:"up"`
	Squash string  `json:"squash,omitempty"` // sigmoid, affine, relu, softmax
	TT     bool    `json:"tt,omitempty"`     // target tracked
	T      lib.FL  `json:"t"`
	Root   float64 `json:"root,omitempty"` // back-propagate loss.Scale(Root)
	Extra  string  `json:"extra,omitempty"`
}

func genLossLeaf(maxN, maxC int) func(s *eng.Src) LGrad {
	return func(s *eng.Src) LGrad {
		c := LGrad{K: eng.Pick(s, lossKinds)}
		S := lossShape(s, c.K, maxN, maxC)
		n := ref.Prod(S)
		wide := s.Chance(1, 5)
		p := s.Floats(n, func(s *eng.Src) float64 {
			if c.K == "mse" && wide {
				return s.Nice()
			}
			return drawPred(s, wide)
		})
		c.T = s.Floats(n, func(s *eng.Src) float64 { return clipV(drawTarget(s, false), 0, 1) })
		c.Up.Leaves = []lib.L{{S: S, V: p, T: s.Chance(7, 8)}}
		c.TT = s.Chance(1, 4)
		c.scale(s)
		return c
	}
}

func (c *LGrad) scale(s *eng.Src) {
	if s.Chance(1, 4) {
		c.Root = eng.Pick(s, []float64{2, -1, 0.5, 0, 1e3})
	}
	if s.Chance(1, 6) {
		c.Extra = "mse"
		if len(c.T) > 0 && s.Bool() {
			c.Extra = c.K
		}
		if c.K == "ce" {
			c.Extra = "ce"
		}
	}
}

func genLossGraph(s *eng.Src) LGrad {
	c := LGrad{K: eng.Pick(s, lossKinds)}
	o := progOpts{maxSteps: 7, maxElems: 16, maxRank: 3}
	c.Up = genProg(s, o)
	root := c.Up.Roots[0]
	tp := ref.NewTape()
	tp.NoGrad = true
	nodes := []*ref.T{}
	for _, l := range c.Up.Leaves {
		nodes = append(nodes, tp.Leaf(l.S, l.V))
	}
	for _, st := range c.Up.Steps {
		var in []*ref.T
		for _, j := range st.In {
			in = append(in, nodes[j])
		}
		nodes = append(nodes, tp.Apply(st.Op, in...))
	}
	r := nodes[root]
	n := ref.Prod(r.Shape)
	S := []int{n}
	if c.K == "ce" {
		d := 1
		for d0 := s.Range(1, n); d0 >= 1; d0-- {
			if n%d0 == 0 {
				d = d0
				break
			}
		}
		S = []int{d, n / d}
	}
	c.Up.Steps = append(c.Up.Steps, Step{ref.Op{K: "Reshape", S: S}, []int{root}})
	c.Up.Roots = []int{c.Up.n() - 1}
	switch {
	case c.K == "mse":
		c.Squash = eng.Pick(s, []string{"", "sigmoid", "relu"})
	case c.K == "bce":
		c.Squash = eng.Pick(s, []string{"sigmoid", "affine", "relu"})
	default:
		c.Squash = eng.Pick(s, []string{"softmax", "sigmoid", "affine", "relu"})
	}
	c.T = s.Floats(n, func(s *eng.Src) float64 { return clipV(drawTarget(s, false), 0, 1) })
	c.TT = s.Chance(1, 6)
	c.scale(s)
	return c
}

func checkLossGrad(c LGrad, x *eng.Ctx) error {
	r, err := exec(&c.Up)
	if err != nil {
		return err
	}
	z := c.Up.n() - 1
	if len(c.Up.Roots) > 0 {
		z = c.Up.Roots[0]
	}
	zt := r.ts[z]
	p := zt
	// the squashing part, on the library
	switch c.Squash {
	case "sigmoid":
		p, err = Act{K: "sigmoid"}.apply(zt)
	case "softmax":
		p, err = Act{K: "softmax", D: 1}.apply(zt)
	case "relu":
		p, err = Act{K: "relu"}.apply(zt)
	case "affine":
		var half lib.Tensor
		if half, err = tensor.Full(zt.Shape(), 0.5, lib.Conf(false)); err == nil {
			p, err = zt.Sin().Scale(0.5).Add(half)
		}
	}
	if err != nil {
		return err
	}
	S, pv, err := lib.Read(p)
	if err != nil {
		return err
	}
	tracked := r.tracked[z]
	// exactly at a clipping bound: not judged
	atBound := func(v float64) bool { return c.K != "mse" && (v == clipE || v == 1-clipE) }
	judged := 0
	for _, v := range pv {
		if !atBound(v) {
			judged++
		}
	}
	if judged == 0 {
		x.Skip()
		return nil
	}
	t, err := lib.Build(S, c.T, c.TT)
	if err != nil {
		return err
	}
	l, err := compute(c.K, p, t)
	if err != nil {
		return err
	}
	w := 1.0
	root := l
	if c.Root != 0 {
		w = c.Root
		root = l.Scale(c.Root)
	}
	want, tol := lossGrad(c.K, S, pv, c.T)
	for i := range want {
		want[i] *= w
		tol[i] = tol[i]*math.Abs(w) + 1e-300
	}
	if c.Extra != "" && !(c.Extra == "ce" && len(S) != 2) && !(c.Extra != "ce" && len(S) != 1) {
		// a second loss on the same prediction: the gradients add up
		l2, err := compute(c.Extra, p, t)
		if err != nil {
			return err
		}
		if root, err = root.Add(l2); err != nil {
			return fmt.Errorf("adding two losses failed: %v", err)
		}
		w2, t2 := lossGrad(c.Extra, S, pv, c.T)
		for i := range want {
			tol[i] += t2[i] + 4*eps*(math.Abs(want[i])+math.Abs(w2[i]))
			want[i] += w2[i]
		}
		x.Label("two losses")
	}
	if err := tensor.BackPropagate(root); err != nil {
		return fmt.Errorf("BackPropagate of the loss failed: %v", err)
	}
	g := p.Gradient()
	if !c.TT && t.Gradient() != nil {
		return fmt.Errorf("%s: the untracked target has a gradient", c.K)
	}
	if !tracked {
		if g != nil {
			return fmt.Errorf("%s: the untracked prediction has a gradient", c.K)
		}
		x.Label("untracked prediction")
		return nil
	}
	if g == nil {
		return fmt.Errorf("%s: the prediction has no gradient", c.K)
	}
	if err := lib.CheckShape(c.K+": gradient of the prediction", g, S); err != nil {
		return err
	}
	_, gv, err := lib.Read(g)
	if err != nil {
		return err
	}
	clipped := false
	for i := range gv {
		if !finite(gv[i]) {
			return fmt.Errorf("%s: gradient at prediction %v, target %v is %v", c.K, pv[i], c.T[i], gv[i])
		}
		if atBound(pv[i]) {
			continue
		}
		if !(math.Abs(gv[i]-want[i]) <= tol[i]) {
			return fmt.Errorf("%s: gradient at prediction %v, target %v is %v, want %v (tolerance %.3g)", c.K, pv[i], c.T[i], gv[i], want[i], tol[i])
		}
		clipped = clipped || c.K != "mse" && (pv[i] < clipE || pv[i] > 1-clipE)
	}
	if len(c.Up.Steps) > 0 && !r.tape.NonDiff {
		// the program upstream gets exactly what arrives at its last node
		zg := zt.Gradient()
		if zg == nil {
			return fmt.Errorf("upstream of the loss: the node before %s has no gradient", c.Squash)
		}
		_, zv, err := lib.Read(zg)
		if err != nil {
			return err
		}
		if len(zv) != len(r.rs[z].V) || !allFinite(zv) {
			return fmt.Errorf("upstream of the loss: the gradient of the node before %s is %v", c.Squash, zv)
		}
		a := r.tape.BackW(r.rs[z], zv)
		if !tooWild(a) {
			reached := make([]bool, c.Up.n())
			r.reach(z, reached)
			if err := r.checkGrads(a, reached, x); err != nil {
				return fmt.Errorf("upstream of the loss: %v", err)
			}
			x.Label("upstream gradients compared")
		}
	}
	x.NonTrivial()
	x.Label("%s, %s", c.K, map[bool]string{true: "leaf", false: "graph " + c.Squash}[len(c.Up.Steps) == 0])
	if clipped {
		x.Label("%s with clipped predictions", c.K)
	}
	return nil
}

func enumLossGrad(th bool, yield func(LGrad) bool) {
	enumLoss(th, func(c LossCase) bool {
		for i := range c.P {
			c.T[i] = clipV(c.T[i], 0, 1)
			if math.Abs(c.P[i]) > 10 && c.K == "mse" {
				return true
			}
		}
		return yield(LGrad{K: c.K, Up: Prog{Leaves: []lib.L{{S: c.S, V: c.P, T: true}}}, T: c.T})
	})
}

func C13() *eng.Prop {
	return &eng.Prop{
		ID:     "C13",
		QuickX: 2,
		Rule:   "a case is non-trivial when a loss of a tracked prediction was back-propagated and every element of the prediction's gradient compared with the analytic derivative",
		Parts: []eng.AnyPart{
			eng.Part[LGrad]{Name: "special values", Enum: enumLossGrad, Check: checkLossGrad},
			eng.Part[LGrad]{Name: "leaf predictions", Quick: 100000, Thorough: 2500000, Gen: genLossLeaf(40, 12), Check: checkLossGrad},
			eng.Part[LGrad]{Name: "predictions from upstream graphs", Quick: 60000, Thorough: 1200000, Gen: genLossGraph, Check: checkLossGrad},
			eng.Part[LGrad]{Name: "huge batches", Quick: 24, Thorough: 1000, Gen: eng.Huge(genLossLeaf(140000, 3)), Check: checkLossGrad},
			eng.Part[LGrad]{Name: "large batches", Quick: 500, Thorough: 10000, Gen: eng.Large(genLossLeaf(20000, 50)), Check: checkLossGrad},
			roundsPart("loss", false, 40000, 1000000),
			longRoundsPart("loss", false, 150, 6000),
		},
		Assumptions: []string{
			"predictions that are exactly 1e-12 or 1-1e-12 are not judged (the statement excludes them); predictions outside [0,1] are clipped, hence zero, for BCE and CE",
			"the gradient of a tracked target is not specified and only required not to disturb the prediction's",
		},
	}
}
