package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Giant is a linear graph of tens or hundreds of thousands of operations:
// node i is A times node i-1 plus B times an earlier node.
type Giant struct {
	N    int    `json:"n"`
	A    lib.F1 `json:"a"`
	B    lib.F1 `json:"b"`
	Back int    `json:"back"` // 0 none, 1 the leaf, 2 the node before the last one, else Back nodes back
	X    lib.L  `json:"x"`
}

func genGiant(s *eng.Src) Giant {
	c := Giant{N: s.Range(17000, 90000), A: 1, B: 0, Back: s.Weighted(3, 2, 2)}
	if s.Chance(1, 4) {
		c.Back = s.Range(3, c.N)
	}
	if c.Back == 0 {
		c.N *= 3
		c.A = eng.Pick(s, []lib.F1{1, -1, 1, 0.9999})
	} else {
		c.A, c.B = lib.F1(1.2*s.Unit()-0.6), lib.F1(0.8*s.Unit()-0.4)
		if c.Back == 1 {
			c.A, c.B = 1, eng.Pick(s, []lib.F1{1, -0.5, 0.125})
		}
	}
	sh := s.Shape(0, 2, 3)
	c.X = lib.L{S: sh, V: s.NiceN(ref.Prod(sh)), T: true}
	return c
}

func checkGiant(c Giant, x *eng.Ctx) error {
	leaf, err := lib.Build(c.X.S, c.X.V, true)
	if err != nil {
		return err
	}
	a, b := float64(c.A), float64(c.B)
	nodes := make([]lib.Tensor, 1, c.N+1)
	nodes[0] = leaf
	from := func(i int) int {
		switch {
		case c.Back == 1:
			return 0
		case c.Back == 2:
			return max(0, i-2)
		}
		return max(0, i-c.Back)
	}
	for i := 1; i <= c.N; i++ {
		y := nodes[i-1].Scale(a)
		if c.Back > 0 {
			if y, err = y.Add(nodes[from(i)].Scale(b)); err != nil {
				return fmt.Errorf("Add at node %d: %v", i, err)
			}
		}
		nodes = append(nodes, y)
	}
	if err := tensor.BackPropagate(nodes[c.N]); err != nil {
		return fmt.Errorf("BackPropagate: %v", err)
	}
	adj := make([]float64, c.N+1)
	abs := make([]float64, c.N+1)
	adj[c.N], abs[c.N] = 1, 1
	for i := c.N; i > 0; i-- {
		adj[i-1] += a * adj[i]
		abs[i-1] += math.Abs(a) * abs[i]
		if c.Back > 0 {
			adj[from(i)] += b * adj[i]
			abs[from(i)] += math.Abs(b) * abs[i]
		}
	}
	for _, i := range []int{0, 1, c.N / 7, c.N / 3, c.N / 2, c.N - 2, c.N - 1, c.N} {
		g := nodes[i].Gradient()
		if g == nil {
			return fmt.Errorf("node %d of %d has no gradient", i, c.N)
		}
		want := make([]float64, len(c.X.V))
		for p := range want {
			want[p] = adj[i]
		}
		err := lib.CheckNear(fmt.Sprintf("gradient of node %d of %d", i, c.N), g, c.X.S, want, func(int) float64 {
			return 1e-9*abs[i] + 1e-200
		})
		if err != nil {
			return err
		}
	}
	x.Label("nodes %d0000", len(nodes)/10000)
	x.NonTrivial()
	return nil
}
