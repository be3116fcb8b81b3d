package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Link is one element of a chain: an activation, or (K == "op") a tensor
// operation that keeps the shape.
type Link struct {
	A Act    `json:"a,omitempty"`
	O ref.Op `json:"o,omitempty"`
}

// Chain applies links to a leaf; node Fork of the chain is also used by a
// side branch of another activation. The root is sum(last * G).
type Chain struct {
	X    lib.L  `json:"x"`
	L    []Link `json:"l"`
	G    lib.FL `json:"g"`
	Up   int    `json:"up,omitempty"`   // 1: the first input is an intermediate
	Side string `json:"side,omitempty"` // a second activation on the first input
}

func genChain(maxElems, maxLinks int) func(s *eng.Src) Chain {
	return func(s *eng.Src) Chain {
		var c Chain
		sh := s.Shape(0, 6, maxElems)
		n := ref.Prod(sh)
		k := 1
		if maxLinks > 1 {
			k = s.Range(1, maxLinks)
		}
		lim := math.MaxFloat64
		for i := 0; i < k; i++ {
			if i > 0 && s.Chance(1, 4) {
				o := ref.Op{K: eng.Pick(s, []string{"Scale", "Sin", "Tanh", "Cos"})}
				if o.K == "Scale" {
					o.A = eng.Pick(s, []float64{2, -1, 0.5, 30, -3})
				}
				c.L = append(c.L, Link{O: o})
				continue
			}
			a := drawAct(s, len(sh))
			if math.Abs(a.M) > 1000 {
				a.M = 2
			}
			lim = math.Min(lim, actLimit(a.K))
			c.L = append(c.L, Link{A: a})
		}
		mode := s.Intn(4)
		c.X = lib.L{S: sh, T: !s.Chance(1, 20), V: s.Floats(n, func(s *eng.Src) float64 {
			switch mode {
			case 0:
				return s.Nice()
			case 1:
				return float64(s.Intn(3)) - 1
			}
			return drawX(s, lim)
		})}
		oneSided(s, c.X.V)
		gm := s.Intn(4)
		c.G = s.Floats(n, func(s *eng.Src) float64 {
			switch gm {
			case 0:
				return 1
			case 1, 2:
				return s.Nice()
			}
			g := math.Ldexp(1+s.Unit(), s.Range(0, 120)-60)
			if s.Bool() {
				g = -g
			}
			return g
		})
		c.Up = s.Intn(3)
		if s.Chance(1, 5) {
			c.Side = eng.Pick(s, []string{"relu", "sigmoid", "tanh"})
		}
		return c
	}
}

// actGrad gives, for input values v and upstream gradient g, the interval the
// gradient of every input element must be in.
func (a Act) actGrad(sh []int, v, g []float64) (lo, hi []float64) {
	n := len(v)
	lo, hi = make([]float64, n), make([]float64, n)
	// 1e-200 absolute: intermediate products may underflow
	set := func(i int, w, tol float64) { lo[i], hi[i] = w-tol-1e-200, w+tol+1e-200 }
	between := func(i int, p, q float64) {
		t := 4*eps*math.Max(math.Abs(p), math.Abs(q)) + 1e-200
		lo[i], hi[i] = math.Min(p, q)-t, math.Max(p, q)+t
	}
	switch a.K {
	case "relu", "leaky":
		m := 0.0
		if a.K == "leaky" {
			m = a.slope()
		}
		for i, x := range v {
			switch {
			case x > 0:
				set(i, g[i], 4*eps*math.Abs(g[i]))
			case x < 0:
				set(i, m*g[i], 8*eps*math.Abs(m*g[i]))
			default:
				between(i, g[i], m*g[i])
			}
		}
	case "sigmoid":
		for i, x := range v {
			e := math.Exp(-math.Abs(x))
			d := e / ((1 + e) * (1 + e))
			set(i, g[i]*d, math.Abs(g[i])*(d*1e-12+1e-150))
		}
	case "tanh":
		for i, x := range v {
			d, _ := ref.UnaryD("Tanh", 0, x)
			set(i, g[i]*d, math.Abs(g[i])*(1e-12*d+32*eps))
		}
	case "softmax":
		p, _ := a.value(sh, v)
		a.fibres(sh, func(id []int) {
			s, sa := 0.0, 0.0
			for _, j := range id {
				s += p[j] * g[j]
				sa += p[j] * math.Abs(g[j])
			}
			for _, i := range id {
				set(i, p[i]*(g[i]-s), p[i]*(math.Abs(g[i])+sa)*(4e-12+16*eps*float64(len(id)))+1e-280*(math.Abs(g[i])+sa))
			}
		})
	}
	return lo, hi
}

func checkChain(c Chain, x *eng.Ctx) error {
	n := len(c.X.V)
	leaf, err := lib.Build(c.X.S, c.X.V, c.X.T)
	if err != nil {
		return err
	}
	in := leaf
	var up []float64 // derivative of the first input with respect to the leaf
	switch c.Up {
	case 1: // an intermediate with the same values
		zero, err := tensor.Zeros(append([]int{}, c.X.S...), lib.Conf(false))
		if err != nil {
			return err
		}
		if in, err = leaf.Scale(1).Add(zero); err != nil {
			return fmt.Errorf("upstream: %v", err)
		}
		up = make([]float64, n)
		for i := range up {
			up[i] = 1
		}
	case 2: // a smooth function of the leaf
		in = leaf.Sin().Scale(3)
		up = make([]float64, n)
		for i := range up {
			up[i] = 3 * math.Cos(c.X.V[i])
		}
	}
	node := []lib.Tensor{in}
	for _, l := range c.L {
		var y lib.Tensor
		if l.O.K != "" {
			y, err = lib.Apply(l.O, node[len(node)-1])
		} else {
			y, err = l.A.apply(node[len(node)-1])
		}
		if err != nil {
			return err
		}
		node = append(node, y)
	}
	vals := make([][]float64, len(node))
	for i, t := range node {
		if err := lib.CheckShape("chain", t, c.X.S); err != nil {
			return err
		}
		if _, vals[i], err = lib.Read(t); err != nil {
			return err
		}
		for _, v := range vals[i] {
			if !finite(v) && i > 0 && maxAbs(vals[i-1]) > 1e300 {
				x.Skip() // a product that float64 cannot hold
				return nil
			}
			if !finite(v) {
				return fmt.Errorf("node %d of the chain is not finite: %v", i, vals[i])
			}
			if i < len(c.L) && c.L[i].O.K == "" && math.Abs(v) > actLimit(c.L[i].A.K) {
				x.Skip()
				return nil
			}
		}
	}
	// each link must match its function before its derivative is judged
	for i, l := range c.L {
		if l.O.K == "" {
			if err := checkActValue(l.A, c.X.S, vals[i], node[i+1]); err != nil {
				return err
			}
		}
	}
	g, err := lib.Build(c.X.S, c.G, false)
	if err != nil {
		return err
	}
	last := node[len(node)-1]
	root, err := last.Mul(g)
	if err != nil {
		return err
	}
	var side lib.Tensor
	if c.Side != "" {
		if side, err = (Act{K: c.Side}).apply(in); err != nil {
			return err
		}
		s2, err := side.Mul(g)
		if err != nil {
			return err
		}
		if root, err = root.Add(s2); err != nil {
			return err
		}
	}
	if err := tensor.BackPropagate(root); err != nil {
		return fmt.Errorf("BackPropagate failed: %v", err)
	}
	if !c.X.T {
		for _, t := range append(append([]lib.Tensor{}, node...), leaf) {
			if t.Gradient() != nil {
				return fmt.Errorf("an untracked tensor has a gradient")
			}
		}
		return nil
	}
	// the gradient that arrives at the last node is G itself
	read := func(what string, t lib.Tensor) ([]float64, error) {
		gt := t.Gradient()
		if gt == nil {
			return nil, fmt.Errorf("%s has no gradient", what)
		}
		if err := lib.CheckShape("gradient of "+what, gt, c.X.S); err != nil {
			return nil, err
		}
		_, v, err := lib.Read(gt)
		if err == nil && !allFinite(v) {
			return nil, fmt.Errorf("the gradient of %s is not finite: %v at values %v", what, v, c.X.V)
		}
		return v, err
	}
	up2, err := read("the last output", last)
	if err != nil {
		return err
	}
	for i := range up2 {
		if !(math.Abs(up2[i]-c.G[i]) <= 4*eps*math.Abs(c.G[i])) {
			return fmt.Errorf("the gradient of the last output is %v, want the upstream gradient %v", up2[i], c.G[i])
		}
	}
	for i := len(c.L) - 1; i >= 0; i-- {
		what := fmt.Sprintf("the input of link %d", i)
		got, err := read(what, node[i])
		if err != nil {
			return err
		}
		var lo, hi []float64
		if l := c.L[i]; l.O.K != "" {
			what += " (" + l.O.K + ")"
			lo, hi = make([]float64, n), make([]float64, n)
			for p, v := range vals[i] {
				d, _ := ref.UnaryD(l.O.K, l.O.A, v)
				t := math.Abs(up2[p])*(1e-12*math.Abs(d)+64*eps) + 1e-200
				lo[p], hi[p] = up2[p]*d-t, up2[p]*d+t
			}
		} else {
			what += " (" + l.A.String() + ")"
			lo, hi = l.A.actGrad(c.X.S, vals[i], up2)
		}
		if i == 0 && side != nil {
			l2, h2 := (Act{K: c.Side}).actGrad(c.X.S, vals[0], c.G)
			for p := range lo {
				t := 8 * eps * (math.Abs(lo[p]) + math.Abs(l2[p]) + math.Abs(hi[p]) + math.Abs(h2[p]))
				lo[p] += l2[p] - t
				hi[p] += h2[p] + t
			}
		}
		for p := range got {
			if !(got[p] >= lo[p] && got[p] <= hi[p]) {
				return fmt.Errorf("gradient of %s at value %v (position %v of %v) is %v for the upstream gradient %v, want a value in [%v, %v]", what, vals[i][p], lib.Index(p, c.X.S), c.X.S, got[p], up2[p], lo[p], hi[p])
			}
		}
		up2 = got
	}
	if up != nil {
		got, err := read("the leaf", leaf)
		if err != nil {
			return err
		}
		for p := range got {
			w := up2[p] * up[p]
			if !(math.Abs(got[p]-w) <= math.Abs(up2[p])*1e-12+1e-300) {
				return fmt.Errorf("gradient of the leaf above the activation is %v, want %v", got[p], w)
			}
		}
	}
	x.NonTrivial()
	for _, l := range c.L {
		if l.O.K == "" {
			x.Label("%s", l.A.K)
			if l.A.K == "softmax" {
				x.Label("softmax dim %d of rank %d", l.A.dim(), len(c.X.S))
			}
		}
	}
	for _, v := range c.X.V {
		if v == 0 && c.Up < 2 {
			x.Label("input exactly 0")
			break
		}
	}
	x.Label("chain of %d", len(c.L))
	return nil
}

func enumChain(th bool, yield func(Chain) bool) {
	enumAct(th, func(c ActCase) bool {
		for _, l := range c.Xs {
			if maxAbs(l.V) > actLimit(c.A.K) || maxAbs(l.V) > 1e300 && math.Abs(c.A.M) > 1 || math.Abs(c.A.M) > 1000 {
				continue
			}
			g := fill(uint64(len(l.V)*5+1), len(l.V))
			for up := 0; up < 2; up++ {
				if !yield(Chain{X: lib.L{S: l.S, V: l.V, T: true}, L: []Link{{A: c.A}}, G: g, Up: up}) {
					return false
				}
			}
		}
		return true
	})
}

func C15() *eng.Prop {
	return &eng.Prop{
		ID:   "C15",
		Rule: "a case is non-trivial when an activation chain over a tracked input was back-propagated and the gradient of every node compared with the derivative applied to the gradient of the next node",
		Parts: []eng.AnyPart{
			eng.Part[Chain]{Name: "special values, all softmax dimensions of all small shapes", Enum: enumChain, Check: checkChain},
			eng.Part[Chain]{Name: "single activation", Quick: 100000, Thorough: 2500000, Gen: genChain(40, 1), Check: checkChain},
			eng.Part[Chain]{Name: "chains", Quick: 60000, Thorough: 1500000, Gen: genChain(24, 5), Check: checkChain},
			eng.Part[Chain]{Name: "huge inputs", Quick: 100, Thorough: 1500, Gen: eng.Huge(genChain(140000, 1)), Check: checkChain},
			eng.Part[Chain]{Name: "large inputs", Quick: 700, Thorough: 15000, Gen: eng.Large(genChain(16000, 3)), Check: checkChain},
			roundsPart("act", false, 40000, 1000000),
			longRoundsPart("act", false, 150, 6000),
		},
		Assumptions: []string{
			"each link is judged at the library's own input values and at the gradient that arrived at its output, so errors do not accumulate along a chain",
			"Sigmoid's gradient may differ from s(1-s) by 1e-150 times the upstream gradient, Tanh's by 32 ulps of 1 (cancellation in 1-tanh^2)",
		},
	}
}
