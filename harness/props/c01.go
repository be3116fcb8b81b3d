package props

import (
	"fmt"
	"math"
	"runtime"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// checkProg back-propagates every root in turn and compares after each one.
func checkProg(p Prog, x *eng.Ctx) error {
	r, err := exec(&p)
	if err != nil {
		return err
	}
	if r.tape.NonDiff {
		x.Skip()
		return nil
	}
	acc := r.tape.NewAdj()
	reached := make([]bool, p.n())
	some := false
	for k, root := range p.Roots {
		a := r.tape.Back(r.rs[root])
		if tooWild(a) {
			x.Skip()
			return nil
		}
		if r.tracked[root] {
			acc.Add(a)
			r.reach(root, reached)
			some = some || root >= len(p.Leaves)
		}
		if err := tensor.BackPropagate(r.ts[root]); err != nil {
			return fmt.Errorf("BackPropagate from %s failed: %v", r.name(root), err)
		}
		if err := r.checkGrads(acc, reached, x); err != nil {
			return fmt.Errorf("after back-propagation %d: %v", k+1, err)
		}
	}
	if some {
		x.NonTrivial()
	}
	if f := p.fanout(); f >= 2 {
		x.Label("interior fan-out >= 2")
		if f >= 5 {
			x.Label("interior fan-out >= 5")
		}
	}
	if len(p.Roots) > 1 {
		x.Label("several roots")
	}
	for _, st := range p.Steps {
		x.Label("op " + st.K)
	}
	return nil
}

// Ladder is a parametric deep graph.
type Ladder struct {
	Kind  int   `json:"kind"`
	Depth int   `json:"depth"`
	Wide  int   `json:"wide"`
	S     lib.L `json:"x"`
	Pick  []int `json:"pick"`
}

const ladderKinds = 8

func genLadder(s *eng.Src) Ladder {
	l := Ladder{Kind: s.Intn(ladderKinds)}
	switch s.Weighted(3, 4, 1) {
	case 0:
		l.Depth = s.Range(1, 8)
	case 1:
		l.Depth = s.Range(9, 60)
	default:
		l.Depth = s.Size(61, 600)
	}
	l.Wide = s.Range(2, 6)
	sh := s.Shape(0, 2, 6)
	l.S = lib.L{S: sh, V: s.NiceN(ref.Prod(sh)), T: true}
	for i := 0; i < 8; i++ {
		l.Pick = append(l.Pick, s.Intn(12))
	}
	return l
}

// prog expands a ladder. Every node is scaled so that values stay moderate.
func (l Ladder) prog() Prog {
	p := Prog{Leaves: []lib.L{l.S}}
	add := func(op ref.Op, in ...int) int {
		p.Steps = append(p.Steps, Step{op, in})
		return p.n() - 1
	}
	o := func(k string) ref.Op { return ref.Op{K: k} }
	sc := func(a float64) ref.Op { return ref.Op{K: "Scale", A: a} }
	pk := func(i int) int { return l.Pick[i%len(l.Pick)] }
	cur := 0
	prev := add(o("Tanh"), 0)
	switch l.Kind {
	case 0: // x <- (x + x)/2
		for i := 0; i < l.Depth; i++ {
			cur = add(sc(0.5), add(o("Add"), cur, cur))
		}
	case 1: // x <- tanh(x*x)
		for i := 0; i < l.Depth; i++ {
			cur = add(o("Tanh"), add(o("Mul"), cur, cur))
		}
	case 2: // Fibonacci: each node feeds the next two
		for i := 0; i < l.Depth; i++ {
			cur, prev = add(sc(0.5), add(o("Add"), cur, prev)), cur
		}
	case 3: // diamonds
		for i := 0; i < l.Depth; i++ {
			a, b := add(o("Sin"), cur), add(o("Cos"), cur)
			cur = add(o([]string{"Add", "Sub", "Mul"}[pk(i)%3]), a, b)
		}
	case 4: // wide bundles: the node feeds Wide branches that are summed up
		d := min(l.Depth, 40)
		for i := 0; i < d; i++ {
			s := -1
			for k := 0; k < l.Wide; k++ {
				b := add(sc([]float64{0.5, -0.25, 0.75, 1, -0.5, 0.2}[(k+pk(i))%6]), cur)
				if s < 0 {
					s = b
				} else {
					s = add(o("Add"), s, b)
				}
			}
			cur = add(o("Tanh"), s)
		}
	case 5: // skip connections from a hub in the middle of the graph
		hub := add(o("Sin"), cur)
		cur = hub
		for i := 0; i < l.Depth; i++ {
			cur = add(o("Tanh"), add(o("Add"), cur, hub))
			if pk(i)%4 == 0 {
				hub = cur
			}
		}
	case 6: // concatenation of shared pieces
		cur = add(ref.Op{K: "Reshape", S: []int{ref.Prod(l.S.S)}}, cur)
		n := ref.Prod(l.S.S)
		for i := 0; i < l.Depth; i++ {
			c := add(ref.Op{K: "Concat"}, cur, cur, cur)
			a := add(ref.Op{K: "Slice", R: [][2]int{{0, n}}}, c)
			b := add(ref.Op{K: "Slice", R: [][2]int{{n, 2 * n}}}, c)
			cur = add(o("Tanh"), add(o("Sub"), a, add(sc(0.5), b)))
		}
	default: // a plain chain, much deeper
		for i := 0; i < 10*l.Depth; i++ {
			cur = add(o([]string{"Sin", "Tanh", "Cos", "Scale"}[pk(i)%4]), cur)
			if p.Steps[len(p.Steps)-1].K == "Scale" {
				p.Steps[len(p.Steps)-1].A = 0.9
			}
		}
	}
	p.Roots = []int{cur}
	return p
}

// Fan is one tensor with very many consumers.
type Fan struct {
	Leaf bool   `json:"leaf"` // the shared tensor is the leaf itself
	N    int    `json:"n"`
	X    lib.L  `json:"x"`
	C    lib.FL `json:"c"`
	Cat  bool   `json:"cat"`
	BPs  int    `json:"bps"` // one back-propagation per BPs consumers (leaf only)
}

func genFan(s *eng.Src) Fan {
	f := Fan{Leaf: s.Bool(), N: s.Range(2, 20), Cat: s.Chance(1, 3)}
	if s.Chance(1, 3) {
		f.N = s.Size(21, 1200)
	}
	sh := s.Shape(1, 2, 4)
	f.X = lib.L{S: sh, V: s.NiceN(ref.Prod(sh)), T: true}
	f.C = s.NiceN(5)
	if f.Leaf && s.Bool() {
		f.BPs = s.Range(1, 3)
	}
	return f
}

func (f Fan) prog() Prog {
	p := Prog{Leaves: []lib.L{f.X}}
	add := func(op ref.Op, in ...int) int {
		p.Steps = append(p.Steps, Step{op, in})
		return p.n() - 1
	}
	h := 0
	if !f.Leaf {
		h = add(ref.Op{K: "Sin"}, 0)
	}
	var outs []int
	for i := 0; i < f.N; i++ {
		c := f.C[i%len(f.C)]
		switch i % 4 {
		case 0:
			outs = append(outs, add(ref.Op{K: "Scale", A: c}, h))
		case 1:
			outs = append(outs, add(ref.Op{K: "Cos"}, h))
		case 2:
			outs = append(outs, add(ref.Op{K: "Mul"}, h, h))
		default:
			outs = append(outs, add(ref.Op{K: "Tanh"}, h))
		}
	}
	join := func(l []int) int {
		if len(l) == 1 {
			return l[0]
		}
		if f.Cat {
			return add(ref.Op{K: "Concat"}, l...)
		}
		s := l[0]
		for _, b := range l[1:] {
			s = add(ref.Op{K: "Add"}, s, b)
		}
		return s
	}
	if f.BPs == 0 {
		p.Roots = []int{join(outs)}
		return p
	}
	for i := 0; i < len(outs); i += f.BPs {
		p.Roots = append(p.Roots, join(outs[i:min(len(outs), i+f.BPs)]))
	}
	return p
}

// Small enumerates all programs of up to n steps over two scalar leaves.
type Small struct {
	St [][3]int `json:"st"` // kind, operand, operand
	T1 bool     `json:"t1"`
	T2 bool     `json:"t2"`
}

var smallOps = []string{"Sin", "Mul", "Add", "Sub"}

func (c Small) prog() Prog {
	p := Prog{Leaves: []lib.L{
		{S: []int{}, V: lib.FL{0.7}, T: c.T1},
		{S: []int{}, V: lib.FL{-1.3}, T: c.T2}}}
	for _, s := range c.St {
		in := []int{s[1]}
		if s[0] > 0 {
			in = append(in, s[2])
		}
		p.Steps = append(p.Steps, Step{ref.Op{K: smallOps[s[0]]}, in})
	}
	p.Roots = []int{p.n() - 1}
	return p
}

func enumSmall(th bool, yield func(Small) bool) {
	var rec func(st [][3]int, left int) bool
	rec = func(st [][3]int, left int) bool {
		if left == 0 {
			for m := 1; m < 4; m++ {
				if m != 3 && len(st) >= 3 && !th || m != 3 && len(st) >= 4 {
					continue
				}
				if !yield(Small{append([][3]int{}, st...), m&1 != 0, m&2 != 0}) {
					return false
				}
			}
			return true
		}
		n := 2 + len(st)
		for a := 0; a < n; a++ {
			if !rec(append(st, [3]int{0, a, 0}), left-1) {
				return false
			}
		}
		for k := 1; k < len(smallOps); k++ {
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if k == 2 && b < a {
						continue // Add is symmetric
					}
					if !rec(append(st, [3]int{k, a, b}), left-1) {
						return false
					}
				}
			}
		}
		return true
	}
	for d := 1; d <= 3; d++ {
		if !rec(nil, d) {
			return
		}
	}
	if th {
		rec(nil, 4)
	}
}

// Cost compares the work of a back-propagation at depth D and 2D.
type Cost struct {
	Kind  int `json:"kind"`
	Depth int `json:"depth"`
	Wide  int `json:"wide"`
}

func bpMallocs(p Prog) (uint64, error) {
	r, err := exec(&p)
	if err != nil {
		return 0, err
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if err := tensor.BackPropagate(r.ts[p.Roots[0]]); err != nil {
		return 0, fmt.Errorf("BackPropagate failed: %v", err)
	}
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs, nil
}

func checkCost(c Cost, x *eng.Ctx) error {
	l := Ladder{Kind: c.Kind, Depth: c.Depth, Wide: c.Wide, S: lib.L{S: []int{}, V: lib.FL{0.4}, T: true}, Pick: []int{0, 1, 2, 3}}
	m1, err := bpMallocs(l.prog())
	if err != nil {
		return err
	}
	l.Depth *= 2
	m2, err := bpMallocs(l.prog())
	if err != nil {
		return err
	}
	// polynomial work of degree <= 4 would at most give a factor of 16
	if f := float64(m2) / math.Max(1, float64(m1)); f > 40 {
		return fmt.Errorf("cost: doubling the depth of the graph from %d to %d multiplies the work of BackPropagate by %.0f (%d and %d allocations)", c.Depth, 2*c.Depth, f, m1, m2)
	}
	x.NonTrivial()
	return nil
}

func C01() *eng.Prop {
	o := progOpts{maxSteps: 12, maxElems: 36, maxRank: 4, compare: true, comps: 1}
	ob := o
	ob.explicitB = true
	big := progOpts{maxSteps: 45, maxElems: 16, maxRank: 3, compare: true, comps: 1}
	return &eng.Prop{
		ID:     "C01",
		QuickX: 2,
		Rule:   "a case is non-trivial when at least one back-propagation started from a tracked non-leaf tensor and all gradients were compared",
		Parts: []eng.AnyPart{
			eng.Part[Cost]{Name: "cost growth", Check: checkCost, Enum: func(th bool, yield func(Cost) bool) {
				for k := 0; k < ladderKinds; k++ {
					d := 10
					if k == 7 {
						d = 30
					}
					w := 2
					if k == 4 {
						d = 6
						w = 3
					}
					if !yield(Cost{k, d, w}) {
						return
					}
				}
			}},
			eng.Part[Small]{Name: "all small DAGs", Enum: enumSmall, Check: func(c Small, x *eng.Ctx) error { return checkProg(c.prog(), x) }},
			eng.Part[Prog]{Name: "random DAG", Quick: 60000, Thorough: 1500000, Gen: func(s *eng.Src) Prog { return genProg(s, o) }, Check: checkProg},
			eng.Part[Prog]{Name: "random DAG, explicit broadcast", Quick: 15000, Thorough: 300000, Gen: func(s *eng.Src) Prog { return genProg(s, ob) }, Check: checkProg},
			eng.Part[Prog]{Name: "long random DAG", Quick: 6000, Thorough: 150000, Gen: func(s *eng.Src) Prog { return genProg(s, big) }, Check: checkProg},
			eng.Part[Prog]{Name: "graphs sharing leaves", Quick: 15000, Thorough: 300000, Gen: func(s *eng.Src) Prog {
				oo := o
				oo.maxSteps = 6
				oo.comps = s.Range(2, 5)
				return genProg(s, oo)
			}, Check: checkProg},
			eng.Part[Prog]{Name: "large tensors", Quick: 400, Thorough: 20000, Gen: eng.Large(func(s *eng.Src) Prog {
				oo := o
				oo.maxElems, oo.maxSteps, oo.maxRank = 6000, 7, 5
				oo.comps = s.Range(1, 2)
				return genProg(s, oo)
			}), Check: checkProg},
			eng.Part[Prog]{Name: "huge tensors", Quick: 100, Thorough: 800, Gen: eng.Huge(func(s *eng.Src) Prog {
				oo := o
				oo.maxElems, oo.maxSteps, oo.maxRank, oo.comps = 140000, 4, 4, 1
				for _, k := range progOps(o) {
					if k != "Concat" { // it is quadratic in the leading dimensions
						oo.ops = append(oo.ops, k)
					}
				}
				return genProg(s, oo)
			}), Check: checkProg},
			eng.Part[Ladder]{Name: "very deep graphs", Quick: 40, Thorough: 1000, Gen: func(s *eng.Src) Ladder {
				l := genLadder(s)
				l.S = lib.L{S: []int{}, V: s.NiceN(1), T: true}
				l.Depth = s.Size(601, 6000)
				if l.Kind == 7 {
					l.Depth /= 2
				}
				return l
			}, Check: func(c Ladder, x *eng.Ctx) error { return checkProg(c.prog(), x) }},
			eng.Part[Giant]{Name: "enormous graphs", Quick: 6, Thorough: 120, Gen: genGiant, Check: checkGiant},
			eng.Part[Ladder]{Name: "deep ladders", Quick: 1500, Thorough: 30000, Gen: genLadder, Check: func(c Ladder, x *eng.Ctx) error { return checkProg(c.prog(), x) }},
			eng.Part[Fan]{Name: "wide fan-out", Quick: 1500, Thorough: 30000, Gen: genFan, Check: func(c Fan, x *eng.Ctx) error { return checkProg(c.prog(), x) }},
		},
		Assumptions: []string{
			"values are kept moderate (|v| <= 60) and away from non-differentiable points; every forward value is checked against the reference before gradients are compared at the library's own forward values",
			"finding explicit-broadcast-mean: graphs whose gradients equal the averaging variant for explicit expanding Broadcast are counted as that known finding",
		},
	}
}
