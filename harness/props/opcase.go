package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// OpCase is one operation on leaf operands, back-propagated under an upstream
// weighting W (nil: the result itself is the root).
type OpCase struct {
	Op  ref.Op  `json:"op"`
	Lv  []lib.L `json:"leaves"`
	Arg []int   `json:"arg"` // leaf of each operand
	W   lib.FL  `json:"w"`
}

func (c OpCase) prog() Prog {
	p := Prog{Leaves: append([]lib.L{}, c.Lv...)}
	st := Step{c.Op, c.Arg}
	shapes := make([][]int, len(c.Arg))
	for i, j := range c.Arg {
		shapes[i] = c.Lv[j].S
	}
	sh, ok := ref.OutShape(c.Op, shapes...)
	if !ok {
		panic(eng.HarnessPanic{Msg: "invalid OpCase"})
	}
	if c.W != nil {
		p.Leaves = append(p.Leaves, lib.L{S: sh, V: c.W})
	}
	p.Steps = []Step{st}
	y := p.n() - 1
	p.Roots = []int{y}
	if c.W != nil {
		p.Steps = append(p.Steps, Step{ref.Op{K: "Mul"}, []int{y, y - 1}})
		p.Roots = []int{y + 1}
	}
	return p
}

// fill gives n distinct, irregular values determined by seed.
func fill(seed uint64, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		h := eng.Mix(seed, uint64(i))
		v[i] = float64(int64(h>>11)-1<<52)*0x1p-52*2.5 + 0.1*float64(i%3)
	}
	return v
}

// domain moves values into the domain of an operation's operand.
func domain(op ref.Op, arg int, v []float64) {
	for i, x := range v {
		switch {
		case op.K == "Log":
			if x <= 0 {
				v[i] = math.Abs(x) + 0.1
			}
		case op.K == "Pow":
			if op.A != math.Trunc(op.A) || op.A < 0 {
				if op.A != math.Trunc(op.A) {
					v[i] = math.Abs(x)
				}
				if x == 0 {
					v[i] = 0.5
				}
			}
		case op.K == "Div" && arg == 1:
			if x == 0 {
				v[i] = 1.5
			}
		}
	}
}

// finiteOf puts large numbers in place of infinities. The operations that are
// given infinities have derivatives that do not depend on the values, or only
// on their order.
func finiteOf(v []float64) []float64 {
	w := append([]float64{}, v...)
	for i, x := range w {
		if math.IsInf(x, 0) {
			w[i] = math.Copysign(0x1p1000, x)
		}
	}
	return w
}

// infOps are the operations that are linear, or piecewise so, in each operand.
var infOps = []string{"Slice", "Patch", "Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "SumAlong", "AvgAlong", "MeanAlong",
	"Concat", "Add", "Sub", "Scale", "MaxAlong", "MinAlong", "ElMax", "ElMin"}

// withInf puts infinities into operands.
func withInf(gen func(s *eng.Src) OpCase) func(s *eng.Src) OpCase {
	return func(s *eng.Src) OpCase {
		c := gen(s)
		l := c.Lv[s.Intn(len(c.Lv))]
		for k := s.Range(1, 3); k > 0; k-- {
			l.V[s.Intn(len(l.V))] = math.Inf(1 - 2*s.Intn(2))
		}
		return c
	}
}

// checkOp is the vector-Jacobian check of one application.
func checkOp(c OpCase, x *eng.Ctx) error {
	p := c.prog()
	r := &run{p: &p, tape: ref.NewTape()}
	r.tape.Margin = 0
	if c.Op.K == "StdAlong" {
		r.tape.Margin = 1e-6
	}
	for _, l := range p.Leaves {
		r.rs = append(r.rs, r.tape.Leaf(l.S, finiteOf(l.V)))
	}
	for _, st := range p.Steps {
		in := make([]*ref.T, len(st.In))
		for k, j := range st.In {
			in[k] = r.rs[j]
		}
		r.rs = append(r.rs, r.tape.Apply(st.Op, in...))
	}
	root := p.Roots[0]
	a := r.tape.Back(r.rs[root])
	wild := r.tape.NonDiff
	for i := range a.Abs {
		if !(a.Abs[i] < 1e290) || math.IsNaN(a.D[i]) || math.IsInf(a.Err[i], 0) || math.IsNaN(a.Err[i]) {
			wild = true
		}
	}
	for _, o := range r.rs {
		for _, v := range o.V {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				wild = true
			}
		}
	}
	if wild {
		x.Skip()
		return nil
	}
	// now the library
	for _, l := range p.Leaves {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return err
		}
		r.ts = append(r.ts, t)
		r.tracked = append(r.tracked, l.T)
	}
	any := false
	for _, st := range p.Steps {
		in := make([]lib.Tensor, len(st.In))
		tr := false
		for k, j := range st.In {
			in[k] = r.ts[j]
			tr = tr || r.tracked[j]
		}
		y, err := lib.Apply(st.Op, in...)
		if err != nil {
			return err
		}
		if err := lib.CheckShape("result of "+lib.Desc(st.Op, in...), y, r.rs[len(r.ts)].Shape); err != nil {
			return err
		}
		r.ts = append(r.ts, y)
		r.tracked = append(r.tracked, tr)
		any = any || tr
	}
	if err := tensor.BackPropagate(r.ts[root]); err != nil {
		return fmt.Errorf("back-propagation through an accepted call failed: %s: %v", r.desc(), err)
	}
	reached := make([]bool, p.n())
	r.reach(root, reached)
	cmp := func(d []float64) error {
		for i, t := range r.ts {
			g := t.Gradient()
			if !reached[i] {
				if g != nil {
					return fmt.Errorf("untracked %s has a gradient", r.name(i))
				}
				continue
			}
			if g == nil {
				return fmt.Errorf("tracked %s has no gradient", r.name(i))
			}
			if i == root {
				continue
			}
			want, abs, er := ref.Of(d, r.rs[i]), ref.Of(a.Abs, r.rs[i]), ref.Of(a.Err, r.rs[i])
			err := lib.CheckNear(fmt.Sprintf("gradient of %s through %s", r.name(i), r.desc()), g, r.rs[i].Shape, want, func(q int) float64 {
				return 1e-11*abs[q] + 16*er[q] + 1e-290
			})
			if err != nil {
				return err
			}
		}
		return nil
	}
	err := cmp(a.D)
	if err != nil && r.tape.Expanding && cmp(a.Alt) == nil && x.Known(findMean) {
		x.Label("known: explicit broadcast averages")
		err = nil
	}
	if err != nil {
		return err
	}
	if any {
		x.NonTrivial()
	}
	return nil
}

func (r *run) desc() string {
	st := r.p.Steps[0]
	in := make([]lib.Tensor, len(st.In))
	for k, j := range st.In {
		in[k] = r.ts[j]
	}
	return lib.Desc(st.Op, in...)
}

// shapesUpTo lists all shapes with rank <= r and dimensions 1..d.
func shapesUpTo(r, d int) [][]int {
	out := [][]int{{}}
	last := [][]int{{}}
	for i := 0; i < r; i++ {
		var next [][]int
		for _, s := range last {
			for k := 1; k <= d; k++ {
				next = append(next, append(append([]int{}, s...), k))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// rangesFor lists every valid range list for Slice on dims (all prefixes).
func rangesFor(dims []int, yield func([][2]int) bool) bool {
	var rec func(r [][2]int) bool
	rec = func(r [][2]int) bool {
		if !yield(append([][2]int{}, r...)) {
			return false
		}
		i := len(r)
		if i == len(dims) {
			return true
		}
		if !rec(append(r, [2]int{0, 0})) {
			return false
		}
		for f := 0; f < dims[i]; f++ {
			for t := f + 1; t <= dims[i]; t++ {
				if !rec(append(r, [2]int{f, t})) {
					return false
				}
			}
		}
		return true
	}
	return rec(nil)
}

// factorizations lists all shapes of rank <= maxRank with n elements.
func factorizations(n, maxRank int) [][]int {
	var out [][]int
	var rec func(d []int, left int)
	rec = func(d []int, left int) {
		if left == 1 {
			out = append(out, append([]int{}, d...))
		}
		if len(d) == maxRank {
			return
		}
		for k := 1; k <= left; k++ {
			if left%k == 0 {
				rec(append(append([]int{}, d...), k), left/k)
			}
		}
	}
	rec(nil, n)
	return out
}

// enumOps lists operations with all arguments over all small operand shapes.
// implicit: include operand pairs that need implicit expansion.
func enumOps(kinds []string, maxRank, maxDim int, implicit bool, yield func(op ref.Op, in [][]int) bool) {
	shapes := shapesUpTo(maxRank, maxDim)
	small := shapesUpTo(min(maxRank, 3), maxDim)
	for _, k := range kinds {
		op := ref.Op{K: k}
		switch {
		case k == "Pow":
			for _, a := range []float64{0, 1, 2, 3, -1, -2, 0.5, 2.5} {
				op.A = a
				for _, s := range shapes {
					if !yield(op, [][]int{s}) {
						return
					}
				}
			}
		case k == "Scale":
			for _, a := range []float64{0, 1, -2, 0.3} {
				op.A = a
				for _, s := range shapes {
					if !yield(op, [][]int{s}) {
						return
					}
				}
			}
		case ref.IsUnary(k), k == "Transpose":
			for _, s := range shapes {
				if k == "Transpose" && len(s) < 2 {
					continue
				}
				if !yield(op, [][]int{s}) {
					return
				}
			}
		case ref.IsReduce(k), k == "UnSqueeze", k == "Squeeze", k == "Flatten":
			for _, s := range shapes {
				for d := 0; d <= len(s); d++ {
					op.D = d
					if _, ok := ref.OutShape(op, s); !ok {
						continue
					}
					if !yield(op, [][]int{s}) {
						return
					}
				}
			}
		case k == "Reshape":
			for _, s := range shapes {
				for _, t := range factorizations(ref.Prod(s), 4) {
					op.S = t
					if !yield(op, [][]int{s}) {
						return
					}
				}
			}
		case k == "Broadcast":
			for _, s := range small {
				for _, t := range shapes {
					op.S = t
					if _, ok := ref.OutShape(op, s); !ok {
						continue
					}
					if !yield(op, [][]int{s}) {
						return
					}
				}
			}
		case k == "Slice":
			for _, s := range small {
				ok := rangesFor(s, func(r [][2]int) bool {
					op.R = r
					return yield(op, [][]int{s})
				})
				if !ok {
					return
				}
			}
		case k == "Patch":
			for _, s := range small {
				for _, t := range small {
					if len(s) != len(t) {
						continue
					}
					ok := rangesFor(s, func(r [][2]int) bool {
						op.R = r
						if _, ok := ref.OutShape(op, s, t); !ok {
							return true
						}
						return yield(op, [][]int{s, t})
					})
					if !ok {
						return
					}
				}
			}
		case k == "Concat":
			for _, s := range small {
				for d := range s {
					op.D = d
					for n := 2; n <= 3; n++ {
						for w := 0; w < 1<<n; w++ {
							in := make([][]int, n)
							for i := range in {
								in[i] = append([]int{}, s...)
								if w>>i&1 != 0 {
									in[i][d] = in[i][d]%maxDim + 1
								}
							}
							if !yield(op, in) {
								return
							}
						}
					}
				}
			}
		default: // two operands
			l := shapes
			if implicit {
				l = small
			}
			for _, s := range l {
				for _, t := range l {
					o, ok := ref.OutShape(op, s, t)
					if !ok {
						continue
					}
					if !implicit {
						if k == "MatMul" {
							if len(s) != len(t) || !ref.EqShape(s[:len(s)-2], t[:len(t)-2]) {
								continue
							}
						} else if !ref.EqShape(s, t) {
							continue
						}
					}
					_ = o
					if !yield(op, [][]int{s, t}) {
						return
					}
				}
			}
		}
	}
}
