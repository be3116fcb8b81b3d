package props

import (
	"fmt"

	"qv/eng"
	"qv/lib"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// GUse is what is done with the gradient tensor of one node.
type GUse struct {
	N     int  `json:"n"`
	Track bool `json:"track"` // ResetGradContext to this
	K     int  `json:"k"`     // how it is used afterwards: 0 not, 1 scaled, 2 squared, 3 summed
	BP    bool `json:"bp"`
}

// GradUse is a program whose gradient tensors are reset and used as operands
// while the same program lives on over other leaves.
type GradUse struct {
	P     Prog        `json:"p"`
	V     [][]float64 `json:"v"` // the values of the other leaves
	Early bool        `json:"early"`
	Use   []GUse      `json:"use"`
}

func genGradUse(o progOpts) func(s *eng.Src) GradUse {
	return func(s *eng.Src) GradUse {
		c := GradUse{P: genProg(s, o), Early: s.Chance(1, 3)}
		for _, l := range c.P.Leaves {
			v := append([]float64{}, l.V...)
			if s.Bool() {
				for i := range v {
					v[i] += 0.0625
				}
			}
			c.V = append(c.V, v)
		}
		for i := c.P.n() - 1; i >= 0; i-- {
			if s.Chance(1, 3) || i == c.P.Roots[0] {
				c.Use = append(c.Use, GUse{N: i, Track: s.Chance(4, 5), K: s.Intn(4), BP: s.Chance(2, 3)})
			}
		}
		return c
	}
}

// plain runs a program over these leaf values.
func plain(p *Prog, vals func(i int) []float64) (ts []lib.Tensor, err error) {
	for i, l := range p.Leaves {
		t, err := lib.Build(l.S, vals(i), l.T)
		if err != nil {
			return nil, err
		}
		ts = append(ts, t)
	}
	for k, st := range p.Steps {
		in := make([]lib.Tensor, len(st.In))
		for i, j := range st.In {
			in[i] = ts[j]
		}
		y, err := lib.Apply(st.Op, in...)
		if err != nil {
			return nil, fmt.Errorf("step %d: %v", k, err)
		}
		ts = append(ts, y)
	}
	return ts, nil
}

func backAll(p *Prog, ts []lib.Tensor) error {
	for _, r := range p.Roots {
		if err := tensor.BackPropagate(ts[r]); err != nil {
			return fmt.Errorf("BackPropagate failed: %v", err)
		}
	}
	return nil
}

// gradBits reads all gradients (nil where there is none).
func gradBits(ts []lib.Tensor) (o [][]float64, err error) {
	o = make([][]float64, len(ts))
	for i, t := range ts {
		if g := t.Gradient(); g != nil {
			if _, o[i], err = lib.Read(g); err != nil {
				return nil, err
			}
		}
	}
	return o, nil
}

func sameGrads(what string, ts []lib.Tensor, want [][]float64) error {
	for i, t := range ts {
		g := t.Gradient()
		if (g != nil) != (want[i] != nil) {
			return fmt.Errorf("%s: node %d %s a gradient, want the opposite", what, i, has(g != nil))
		}
		if g == nil {
			continue
		}
		if err := lib.CheckBits(fmt.Sprintf("%s: gradient of node %d", what, i), g, t.Shape(), want[i]); err != nil {
			return err
		}
	}
	return nil
}

func checkGradUse(c GradUse, x *eng.Ctx) error {
	other := func(i int) []float64 { return c.V[i] }
	// the other graph on its own
	alone, err := plain(&c.P, other)
	if err != nil {
		return err
	}
	if err := backAll(&c.P, alone); err != nil {
		return err
	}
	wantB, err := gradBits(alone)
	if err != nil {
		return err
	}

	b, err := plain(&c.P, other)
	if err != nil {
		return err
	}
	a, err := plain(&c.P, func(i int) []float64 { return c.P.Leaves[i].V })
	if err != nil {
		return err
	}
	if err := backAll(&c.P, a); err != nil {
		return err
	}
	if c.Early {
		if err := backAll(&c.P, b); err != nil {
			return err
		}
	}
	wantA, err := gradBits(a)
	if err != nil {
		return err
	}
	// one gradient tensor may serve several tensors of one graph
	used := map[lib.Tensor]bool{}
	spent := map[lib.Tensor]bool{}
	uses := 0
	for q, u := range c.Use {
		g := a[u.N].Gradient()
		if g == nil || used[g] {
			continue
		}
		used[g] = true
		g.ResetGradContext(u.Track)
		what := fmt.Sprintf("use %d: gradient tensor of node %d after ResetGradContext(%v)", q, u.N, u.Track)
		if g.Gradient() != nil {
			return fmt.Errorf("%s has a gradient", what)
		}
		var y lib.Tensor
		v := wantA[u.N]
		want := make([]float64, len(v))
		switch u.K {
		case 0:
			continue
		case 1:
			y = g.Scale(3)
			for i := range want {
				want[i] = 3
			}
		case 2:
			if y, err = g.Mul(g); err != nil {
				return err
			}
			for i := range want {
				want[i] = 2 * v[i]
			}
		default:
			y = g.Scale(1)
			for i := range want {
				want[i] = 1
			}
			for y.NElems() > 1 {
				if y, err = y.Flatten(0); err != nil {
					return err
				}
				if y, err = y.SumAlong(0); err != nil {
					return err
				}
			}
		}
		if !u.BP {
			continue
		}
		if err := tensor.BackPropagate(y); err != nil {
			return fmt.Errorf("%s: BackPropagate failed: %v", what, err)
		}
		spent[g] = true
		if (g.Gradient() != nil) != u.Track || (y.Gradient() != nil) != u.Track {
			return fmt.Errorf("%s: after a back-propagation from a result it %s a gradient and the result %s one", what, has(g.Gradient() != nil), has(y.Gradient() != nil))
		}
		if u.Track {
			uses++
			err := lib.CheckNear(what+": its own gradient", g.Gradient(), g.Shape(), want, func(p int) float64 {
				w := want[p]
				if w < 0 {
					w = -w
				}
				return 1e-12 * w
			})
			if err != nil && !hasNaN(want) {
				return err
			}
		}
		if err := sameGrads(what+", after a back-propagation through it", a, wantA); err != nil {
			return err
		}
	}
	if !c.Early {
		if err := backAll(&c.P, b); err != nil {
			return err
		}
	}
	if err := sameGrads("the other graph", b, wantB); err != nil {
		return err
	}
	// its gradient tensors are untracked, whatever became of the first graph's
	for i, t := range b {
		g := t.Gradient()
		if g == nil {
			continue
		}
		if g.Gradient() != nil {
			return fmt.Errorf("the gradient tensor of node %d of the other graph has a gradient", i)
		}
		y := g.Scale(2)
		if err := tensor.BackPropagate(y); err != nil {
			return err
		}
		if y.Gradient() != nil || g.Gradient() != nil {
			return fmt.Errorf("the gradient tensor of node %d of the other graph is tracked although only gradient tensors of the first graph were reset", i)
		}
	}
	// and back: the other graph left the first one's gradient tensors alone
	if err := sameGrads("the first graph", a, wantA); err != nil {
		return err
	}
	for i, t := range a {
		g := t.Gradient()
		if g == nil || used[g] && spent[g] {
			continue
		}
		if g.Gradient() != nil {
			return fmt.Errorf("the gradient tensor of node %d of the first graph has a gradient although nothing computed from it was back-propagated", i)
		}
	}
	if uses > 0 {
		x.NonTrivial()
		x.Label("gradient tensors differentiated")
	}
	return nil
}

func gradUsePart(n, th int) eng.AnyPart {
	return eng.Part[GradUse]{Name: "gradient tensors put to use", Quick: n, Thorough: th,
		Gen: genGradUse(progOpts{maxSteps: 5, maxElems: 8, maxRank: 3, explicitB: true}), Check: checkGradUse}
}
