// Package props holds the twenty properties.
package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"
)

// Step is one operation of a program; In are node numbers (leaves first).
type Step struct {
	ref.Op
	In []int `json:"in"`
}

// Prog is a straight-line program over leaf tensors: a DAG.
type Prog struct {
	Leaves []lib.L `json:"leaves"`
	Steps  []Step  `json:"steps"`
	Roots  []int   `json:"roots"`
}

func (p *Prog) n() int { return len(p.Leaves) + len(p.Steps) }

// progOpts bounds a generated program.
type progOpts struct {
	maxSteps  int
	maxElems  int
	maxRank   int
	explicitB bool // explicit expanding Broadcast allowed
	compare   bool
	comps     int // number of leaf-sharing graphs
	ops       []string
}

// safe tells whether op applied to these reference operands is well inside
// its differentiable domain with moderate values and derivatives.
func safe(op ref.Op, in []*ref.T) bool {
	tp := ref.NewTape()
	tp.Margin = 1e-4
	cp := make([]*ref.T, len(in))
	for i, x := range in {
		for j := 0; j < i; j++ {
			if in[j] == x {
				cp[i] = cp[j]
			}
		}
		if cp[i] == nil {
			cp[i] = tp.Leaf(x.Shape, x.V)
		}
	}
	switch op.K {
	case "Log":
		for _, v := range in[0].V {
			if v < 0.05 {
				return false
			}
		}
	case "Pow":
		if op.A != math.Trunc(op.A) || op.A < 0 {
			for _, v := range in[0].V {
				if v < 0.1 {
					return false
				}
			}
		}
	case "Tan":
		for _, v := range in[0].V {
			if math.Abs(math.Cos(v)) < 0.25 {
				return false
			}
		}
	case "Div":
		for _, v := range in[1].V {
			if math.Abs(v) < 0.2 {
				return false
			}
		}
	case "StdAlong":
		tp.Margin = 0.01
	}
	o := tp.Apply(op, cp...)
	if tp.NonDiff {
		return false
	}
	for _, v := range o.V {
		if !(math.Abs(v) <= 60) {
			return false
		}
	}
	return true
}

var powExps = []float64{2, 3, 1, 0, -1, 0.5, -2, 1.5, 4, -0.5}

// drawOp draws arguments for operation k on the drawn operands; ok is false
// when k cannot be applied.
func drawOp(s *eng.Src, k string, nodes []*ref.T, pick func() int, o progOpts) (op ref.Op, in []int, ok bool) {
	op.K = k
	a := pick()
	x := nodes[a]
	in = []int{a}
	rank := len(x.Shape)
	partner := func(match func(b *ref.T) bool) (int, bool) {
		b := pick()
		for i := 0; i < len(nodes); i++ {
			j := (b + len(nodes) - i) % len(nodes)
			if match(nodes[j]) {
				return j, true
			}
		}
		return 0, false
	}
	okShape := func(sh []int, ok bool) bool {
		return ok && ref.Prod(sh) <= o.maxElems && len(sh) <= o.maxRank
	}
	switch {
	case k == "Scale":
		op.A = eng.Pick(s, []float64{0.5, -1, 1, 2, -0.3, 0, 1.25})
	case k == "Pow":
		op.A = eng.Pick(s, powExps)
	case ref.IsUnary(k):
	case ref.IsReduce(k):
		if rank == 0 {
			return op, in, false
		}
		op.D = s.Intn(rank)
	case ref.IsArith(k), ref.IsCompare(k), ref.IsElMM(k), k == "Dot", k == "MatMul":
		b, found := partner(func(b *ref.T) bool {
			sh, ok := ref.OutShape(op, x.Shape, b.Shape)
			if !okShape(sh, ok) {
				return false
			}
			if k == "Dot" || k == "MatMul" {
				return ref.Prod(sh)*x.Shape[rank-1] <= 4*o.maxElems
			}
			return true
		})
		if !found {
			return op, in, false
		}
		in = append(in, b)
		if s.Bool() && len(in) == 2 {
			if sh, ok := ref.OutShape(op, nodes[in[1]].Shape, nodes[in[0]].Shape); okShape(sh, ok) {
				in[0], in[1] = in[1], in[0]
			}
		}
	case k == "Slice":
		n := s.Range(0, rank)
		for i := 0; i < n; i++ {
			if s.Chance(1, 4) {
				op.R = append(op.R, [2]int{0, 0})
				continue
			}
			f := s.Intn(x.Shape[i])
			op.R = append(op.R, [2]int{f, f + 1 + s.Intn(x.Shape[i]-f)})
		}
	case k == "Patch":
		b, found := partner(func(b *ref.T) bool {
			if len(b.Shape) != rank {
				return false
			}
			for i := range b.Shape {
				if b.Shape[i] > x.Shape[i] {
					return false
				}
			}
			return true
		})
		if !found {
			return op, in, false
		}
		in = append(in, b)
		n := s.Range(0, rank)
		for i := 0; i < n; i++ {
			if s.Chance(1, 4) {
				op.R = append(op.R, [2]int{0, 0})
				continue
			}
			w := nodes[b].Shape[i]
			f := s.Intn(x.Shape[i] - w + 1)
			op.R = append(op.R, [2]int{f, f + w})
		}
	case k == "Transpose":
		if rank < 2 {
			return op, in, false
		}
	case k == "Reshape":
		op.S = drawFactor(s, ref.Prod(x.Shape), o.maxRank)
	case k == "UnSqueeze":
		if rank >= o.maxRank {
			return op, in, false
		}
		op.D = s.Intn(rank + 1)
	case k == "Squeeze":
		d := -1
		st := s.Intn(rank + 1)
		for i := 0; i < rank; i++ {
			j := (st + i) % rank
			if x.Shape[j] == 1 {
				d = j
				break
			}
		}
		if d < 0 {
			return op, in, false
		}
		op.D = d
	case k == "Flatten":
		if rank == 0 {
			return op, in, false
		}
		op.D = s.Intn(rank)
	case k == "Broadcast":
		op.S = append([]int{}, x.Shape...)
		if o.explicitB {
			for i := range op.S {
				if op.S[i] == 1 && s.Bool() {
					op.S[i] = s.Range(1, 3)
				}
			}
			for len(op.S) < o.maxRank && s.Chance(1, 3) {
				op.S = append([]int{s.Range(1, 3)}, op.S...)
			}
			if ref.Prod(op.S) > o.maxElems {
				return op, in, false
			}
		} else if len(op.S) < o.maxRank && s.Bool() {
			op.S = append([]int{1}, op.S...)
		}
	case k == "Concat":
		if rank == 0 {
			return op, in, false
		}
		op.D = s.Intn(rank)
		n := s.Range(2, 4)
		lim := o.maxElems
		if s.Chance(1, 4) {
			n = s.Range(5, 12)
			lim *= 2
		}
		tot := ref.Prod(x.Shape)
		for len(in) < n {
			b, found := partner(func(b *ref.T) bool {
				_, ok := ref.OutShape(op, x.Shape, b.Shape)
				return ok
			})
			if !found {
				return op, in, false
			}
			tot += ref.Prod(nodes[b].Shape)
			if tot > lim {
				if len(in) < 2 {
					return op, in, false
				}
				break
			}
			in = append(in, b)
		}
		if len(in) < 2 {
			return op, in, false
		}
	default:
		panic(eng.HarnessPanic{Msg: "drawOp " + k})
	}
	return op, in, true
}

// inverseOf gives an operation that takes the result of op (on operands in)
// back to its first operand, or keeps it as it is.
func inverseOf(s *eng.Src, op ref.Op, in []*ref.T, out *ref.T) (inv ref.Op) {
	x := in[0]
	switch op.K {
	case "UnSqueeze":
		return ref.Op{K: "Squeeze", D: op.D}
	case "Squeeze":
		return ref.Op{K: "UnSqueeze", D: op.D}
	case "Transpose":
		return ref.Op{K: "Transpose"}
	case "Reshape", "Flatten":
		return ref.Op{K: "Reshape", S: append([]int{}, x.Shape...)}
	case "Scale":
		if op.A == 2 || op.A == 0.5 || op.A == -1 || op.A == 1 {
			return ref.Op{K: "Scale", A: 1 / op.A}
		}
	case "Exp":
		return ref.Op{K: "Log"}
	case "Concat":
		r := make([][2]int, op.D+1)
		r[op.D] = [2]int{0, x.Shape[op.D]}
		return ref.Op{K: "Slice", R: r}
	}
	// an operation that changes nothing
	switch s.Intn(6) {
	case 0:
		return ref.Op{K: "Scale", A: 1}
	case 1:
		return ref.Op{K: "Pow", A: 1}
	case 2:
		return ref.Op{K: "Reshape", S: append([]int{}, out.Shape...)}
	case 3:
		return ref.Op{K: "Broadcast", S: append([]int{}, out.Shape...)}
	case 4:
		r := [][2]int{}
		for _, d := range out.Shape {
			if s.Bool() {
				break
			}
			r = append(r, [2]int{0, d})
		}
		return ref.Op{K: "Slice", R: r}
	}
	return ref.Op{K: "Slice"}
}

// drawFactor draws a shape with n elements.
func drawFactor(s *eng.Src, n, maxRank int) []int {
	r := s.Range(0, maxRank)
	if s.Chance(1, 24) {
		r = s.Range(7, 14)
	}
	if n > 1 && r == 0 {
		r = 1
	}
	d := make([]int, r)
	for i := range d {
		if i == r-1 {
			d[i] = n
			break
		}
		var f []int
		for k := 1; k <= n; k++ {
			if n%k == 0 {
				f = append(f, k)
			}
		}
		d[i] = eng.Pick(s, f)
		n /= d[i]
	}
	return d
}

// opWeights favours operations that keep graphs interesting.
func progOps(o progOpts) []string {
	if o.ops != nil {
		return o.ops
	}
	ops := []string{}
	add := func(n int, ks ...string) {
		for i := 0; i < n; i++ {
			ops = append(ops, ks...)
		}
	}
	add(4, "Add", "Mul", "Sub")
	add(2, "Div", "ElMax", "ElMin", "MatMul", "Dot", "Concat", "Patch", "Slice", "Scale", "Pow", "Tanh", "Sin")
	add(1, ref.Unary...)
	add(1, ref.Reduce...)
	add(1, "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast")
	if o.compare {
		add(1, "Gt", "Le", "Ne")
	}
	return ops
}

// genProg draws a program; it evaluates the reference as it goes so that every
// operation is applied inside its domain.
func genProg(s *eng.Src, o progOpts) Prog {
	var p Prog
	tp := ref.NewTape()
	tp.NoGrad = true
	var nodes []*ref.T
	base := s.Shape(0, min(3, o.maxRank), max(1, o.maxElems/2))
	s.Deep(&base, max(1, o.maxElems/2), &o.maxRank)
	nl := s.Range(1, 4)
	for i := 0; i < nl; i++ {
		sh := append([]int{}, base...)
		switch s.Weighted(4, 3, 1, 1) {
		case 1:
			sh = s.Sub(base)
		case 2:
			if n := len(sh); n >= 2 {
				sh[n-1], sh[n-2] = sh[n-2], sh[n-1]
			}
		case 3:
			sh = s.Shape(0, min(3, o.maxRank), max(1, o.maxElems/2))
		}
		pos := s.Chance(1, 3)
		v := s.NiceN(ref.Prod(sh))
		if pos {
			for j := range v {
				v[j] = math.Abs(v[j]) + 0.25
			}
		}
		p.Leaves = append(p.Leaves, lib.L{S: sh, V: v, T: s.Chance(4, 5) || i == 0})
		nodes = append(nodes, tp.Leaf(sh, v))
	}
	ops := progOps(o)
	comps := max(1, o.comps)
	for c := 0; c < comps; c++ {
		// the nodes this graph may use: all leaves and its own steps
		mine := []int{}
		for i := 0; i < nl; i++ {
			mine = append(mine, i)
		}
		mode := s.Intn(4)
		hub := -1
		ns := s.Range(1, o.maxSteps)
		for k := 0; k < ns; k++ {
			local := make([]*ref.T, len(mine))
			for i, j := range mine {
				local[i] = nodes[j]
			}
			m := len(mine)
			pick := func() int {
				switch mode {
				case 1: // mostly the latest
					if s.Chance(2, 3) {
						return m - 1
					}
				case 2: // the two latest
					if m >= 2 {
						return m - 1 - s.Intn(2)
					}
				case 3: // a hub
					if hub >= 0 && s.Bool() {
						return hub
					}
				}
				return m - 1 - s.Intn(m)
			}
			put := func(op ref.Op, gl []int) bool {
				args := make([]*ref.T, len(gl))
				for i, j := range gl {
					args[i] = nodes[j]
				}
				if !safe(op, args) {
					return false
				}
				nodes = append(nodes, tp.Apply(op, args...))
				p.Steps = append(p.Steps, Step{op, gl})
				mine = append(mine, len(nodes)-1)
				return true
			}
			st := s.Intn(len(ops))
			done := false
			if o.ops == nil && k > 0 && s.Chance(1, 7) {
				// an earlier operation again, or undone
				j := mine[len(mine)-1-s.Intn(k)]
				e := p.Steps[j-nl]
				if s.Bool() {
					done = put(e.Op, append([]int{}, e.In...))
				} else {
					in := make([]*ref.T, len(e.In))
					for i, q := range e.In {
						in[i] = nodes[q]
					}
					done = put(inverseOf(s, e.Op, in, nodes[j]), []int{j})
				}
			}
			for tries := 0; tries < 12 && !done; tries++ {
				kind := ops[(st+tries*7)%len(ops)]
				op, in, ok := drawOp(s, kind, local, pick, o)
				if !ok {
					continue
				}
				gl := make([]int, len(in))
				for i, j := range in {
					gl[i] = mine[j]
				}
				done = put(op, gl)
			}
			if !done {
				i := m - 1
				op := ref.Op{K: "Tanh"}
				r := tp.Apply(op, local[i])
				nodes = append(nodes, r)
				p.Steps = append(p.Steps, Step{op, []int{mine[i]}})
				mine = append(mine, len(nodes)-1)
			}
			if hub < 0 && k >= 1 {
				hub = len(mine) - 1 - s.Intn(2)
			}
		}
		root := len(mine) - 1
		if s.Chance(1, 4) {
			root -= s.Intn(len(mine))
		}
		p.Roots = append(p.Roots, mine[root])
	}
	return p
}

// run is a program executed on the library and on the tape.
type run struct {
	p       *Prog
	ts      []lib.Tensor
	rs      []*ref.T
	tape    *ref.Tape
	tracked []bool
}

// exec builds the program on the library. The reference takes over the
// library's forward values after checking that they are right, so that the
// derivatives are compared at the very same points.
func exec(p *Prog) (*run, error) {
	r := &run{p: p, tape: ref.NewTape()}
	for i, l := range p.Leaves {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return nil, err
		}
		r.ts = append(r.ts, t)
		r.rs = append(r.rs, r.tape.Leaf(l.S, p.Leaves[i].V))
		r.tracked = append(r.tracked, l.T)
	}
	for i, st := range p.Steps {
		ti := make([]lib.Tensor, len(st.In))
		ri := make([]*ref.T, len(st.In))
		tr := false
		for k, j := range st.In {
			ti[k], ri[k] = r.ts[j], r.rs[j]
			tr = tr || r.tracked[j]
		}
		if ref.IsCompare(st.K) {
			tr = false
		}
		y, err := lib.Apply(st.Op, ti...)
		if err != nil {
			return nil, fmt.Errorf("step %d: %v", i, err)
		}
		o := r.tape.Apply(st.Op, ri...)
		big := 1.0
		for _, x := range ri {
			for _, v := range x.V {
				big = math.Max(big, math.Abs(v))
			}
		}
		if st.K == "Dot" || st.K == "MatMul" || st.K == "VarAlong" || st.K == "StdAlong" {
			big *= big
		}
		err = lib.CheckNear(fmt.Sprintf("forward value of step %d, %s", i, lib.Desc(st.Op, ti...)), y, o.Shape, o.V, func(p int) float64 {
			return 1e-8 * (big*float64(1+len(ri[0].V)) + math.Abs(o.V[p]))
		})
		if err != nil {
			return nil, err
		}
		_, v, err := lib.Read(y)
		if err != nil {
			return nil, err
		}
		r.tape.SetValues(o, v)
		r.ts = append(r.ts, y)
		r.rs = append(r.rs, o)
		r.tracked = append(r.tracked, tr)
	}
	return r, nil
}

// reach marks the tracked tensors a back-propagation from root reaches.
func (r *run) reach(root int, m []bool) {
	if !r.tracked[root] || m[root] {
		return
	}
	m[root] = true
	if k := root - len(r.p.Leaves); k >= 0 {
		for _, j := range r.p.Steps[k].In {
			r.reach(j, m)
		}
	}
}

// fanout returns the largest number of uses of an interior node.
func (p *Prog) fanout() int {
	u := make([]int, p.n())
	m := 0
	for _, st := range p.Steps {
		for _, j := range st.In {
			u[j]++
			if j >= len(p.Leaves) && u[j] > m {
				m = u[j]
			}
		}
	}
	return m
}

const findMean = "explicit-broadcast-mean"

// checkGrads compares the gradients of all tensors with the accumulated
// adjoint: nil exactly outside the reached set.
func (r *run) checkGrads(a *ref.Adj, reached []bool, x *eng.Ctx) error {
	cmp := func(d []float64) error {
		for i, t := range r.ts {
			g := t.Gradient()
			if !reached[i] {
				if g != nil {
					return fmt.Errorf("%s has a gradient although no back-propagated result was computed from it as a tracked tensor", r.name(i))
				}
				continue
			}
			if g == nil {
				return fmt.Errorf("%s has no gradient after the back-propagation", r.name(i))
			}
			want := ref.Of(d, r.rs[i])
			abs, er := ref.Of(a.Abs, r.rs[i]), ref.Of(a.Err, r.rs[i])
			err := lib.CheckNear("gradient of "+r.name(i), g, r.rs[i].Shape, want, func(p int) float64 {
				return 1e-9*abs[p] + 8*er[p] + 1e-13
			})
			if err != nil {
				return err
			}
		}
		return nil
	}
	err := cmp(a.D)
	if err == nil {
		return nil
	}
	if r.tape.Expanding && cmp(a.Alt) == nil {
		if x.Known(findMean) {
			x.Label("known: explicit broadcast averages")
			return nil
		}
	}
	return err
}

func (r *run) name(i int) string {
	if i < len(r.p.Leaves) {
		return fmt.Sprintf("leaf %d", i)
	}
	k := i - len(r.p.Leaves)
	return fmt.Sprintf("node %d (%s of %v)", i, r.p.Steps[k].K, r.p.Steps[k].In)
}

// tooWild tells whether the adjoint has overflowed or is not comparable.
func tooWild(a *ref.Adj) bool {
	for i, v := range a.Abs {
		if !(v < 1e60) || math.IsNaN(a.D[i]) {
			return true
		}
	}
	return false
}
