package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Seq is a sequence of operations on a few tensors, many of which look alike
// and most of which are used several times with slightly different arguments.
// Each result is judged against the values its operands really hold.
type Seq struct {
	Lv []lib.L `json:"leaves"`
	St []Step  `json:"steps"` // node numbers: leaves, then the results that are tensors
	// invalid calls: number Bad[i].At is made before that step
	Bad []SBad `json:"bad,omitempty"`
}

type SBad struct {
	At int  `json:"at"`
	St Step `json:"st"`
}

// spoiled changes a valid step into an invalid one, if it finds out how.
func spoiled(s *eng.Src, st Step, nodes []*ref.T) (Step, bool) {
	for try := 0; try < 5; try++ {
		o := Step{st.Op, append([]int{}, st.In...)}
		o.S = append([]int(nil), st.S...)
		o.R = append([][2]int(nil), st.R...)
		switch {
		case s.Chance(1, 3):
			o.In[s.Intn(len(o.In))] = s.Intn(len(nodes))
		case len(o.S) > 0:
			o.S[s.Intn(len(o.S))] += s.Range(-3, 3)
		case len(o.R) > 0:
			i := s.Intn(len(o.R))
			o.R[i] = [2]int{o.R[i][0] + s.Range(-2, 2), o.R[i][1] + s.Range(-2, 3)}
		default:
			o.D += s.Range(-4, 4)
		}
		if _, ok := seqShape(o, nodes); !ok {
			return o, true
		}
	}
	return st, false
}

// query kinds that do not yield a tensor
const (
	qEquals = "Equals"
	qWhole  = "All" // All+statistic
	qAt     = "At"  // S: the index
)

func isQuery(k string) bool {
	return k == qEquals || k == qAt || len(k) > 3 && k[:3] == qWhole
}

var wholeStats = []string{"AllSum", "AllMax", "AllMin", "AllAvg", "AllVar", "AllStd", "AllMean"}

// likeness draws values that resemble v.
func likeness(s *eng.Src, v []float64) []float64 {
	w := append([]float64{}, v...)
	n := len(w)
	if n == 0 {
		return w
	}
	switch s.Weighted(4, 2, 2, 1, 1, 1) {
	case 0: // one element differs
		i := s.Intn(n)
		w[i] = s.Nice() + 0.125
	case 1: // another order
		for i, j := range s.Perm(min(n, 12)) {
			w[i] = v[j]
		}
	case 2: // the same values in another tensor
	case 3:
		for i := range w {
			w[i] = -w[i]
		}
	case 4:
		i := s.Intn(n)
		w[i] = math.Nextafter(w[i], 10)
	default: // the same start and end
		for i := 1; i < n-1; i++ {
			w[i] = s.Nice()
		}
	}
	return w
}

// variation changes one thing about an operation that was valid.
func variation(s *eng.Src, st Step, nodes []*ref.T) Step {
	o := Step{st.Op, append([]int{}, st.In...)}
	o.S = append([]int(nil), st.S...)
	o.R = append([][2]int(nil), st.R...)
	other := func(i int) {
		// another tensor of the same shape
		var l []int
		for j, t := range nodes {
			if j != o.In[i] && ref.EqShape(t.Shape, nodes[o.In[i]].Shape) {
				l = append(l, j)
			}
		}
		if len(l) > 0 {
			o.In[i] = eng.Pick(s, l)
		}
	}
	switch s.Intn(5) {
	case 0: // exactly the same again
	case 1: // operands in another order
		if len(o.In) > 1 {
			i := s.Intn(len(o.In) - 1)
			o.In[i], o.In[i+1] = o.In[i+1], o.In[i]
		} else {
			other(0)
		}
	case 2:
		other(s.Intn(len(o.In)))
	default: // other arguments
		x := nodes[o.In[0]].Shape
		switch {
		case o.K == "Scale" || o.K == "Pow":
			o.A = []float64{o.A + 0.5, -o.A, o.A + 1, o.A - 0.25, 1 / o.A}[s.Intn(5)]
			if math.IsInf(o.A, 0) {
				o.A = 2
			}
		case ref.IsReduce(o.K), o.K == "Flatten", o.K == "Squeeze", o.K == "Concat":
			if len(x) > 0 {
				o.D = s.Intn(len(x))
			}
		case o.K == "UnSqueeze":
			o.D = s.Intn(len(x) + 1)
		case o.K == "Reshape":
			o.S = drawFactor(s, ref.Prod(x), 4)
		case o.K == "Broadcast":
			if n := len(o.S); n > 0 {
				o.S[s.Intn(n)] = s.Range(1, 4)
			}
		case o.K == "Slice" || o.K == "Patch":
			if len(o.R) > 0 {
				i := s.Intn(len(o.R))
				w := o.R[i][1] - o.R[i][0]
				if s.Bool() && o.K == "Slice" {
					w = s.Range(1, x[i])
				}
				if w == 0 && o.K == "Slice" {
					w = 1
				}
				if w > 0 && w <= x[i] {
					f := s.Intn(x[i] - w + 1)
					o.R[i] = [2]int{f, f + w}
				}
			}
		case o.K == qAt:
			if len(x) > 0 {
				i := s.Intn(len(x))
				o.S[i] = s.Intn(x[i])
			}
		case ref.IsUnary(o.K):
			o.K = eng.Pick(s, ref.Unary)
			o.A = 2
		case ref.IsArith(o.K):
			o.K = eng.Pick(s, ref.Arith)
		case ref.IsCompare(o.K):
			o.K = eng.Pick(s, ref.Compare)
		case ref.IsElMM(o.K):
			o.K = eng.Pick(s, ref.ElMM)
		case isQuery(o.K) && o.K != qEquals:
			o.K = eng.Pick(s, wholeStats)
		}
		if ref.IsReduce(o.K) && s.Chance(1, 3) {
			o.K = eng.Pick(s, ref.Reduce)
		}
	}
	return o
}

func seqShape(st Step, nodes []*ref.T) ([]int, bool) {
	sh := make([][]int, len(st.In))
	for i, j := range st.In {
		sh[i] = nodes[j].Shape
	}
	switch {
	case st.K == qEquals:
		return nil, ref.EqShape(sh[0], sh[1])
	case st.K == qAt:
		if len(st.S) != len(sh[0]) {
			return nil, false
		}
		for i, x := range st.S {
			if x < 0 || x >= sh[0][i] {
				return nil, false
			}
		}
		return nil, true
	case isQuery(st.K):
		return nil, true
	}
	return ref.OutShape(st.Op, sh...)
}

// seqLeaves draws tensors of which several resemble one another.
func seqLeaves(s *eng.Src, maxElems int, wild bool) []lib.L {
	d := s.Shape(0, 4, maxElems)
	if len(d) > 1 && s.Chance(2, 3) {
		// equal dimensions, so that dimensions can be confused
		n := max(1, int(math.Pow(float64(maxElems), 1/float64(len(d)))))
		n = s.Range(1, n)
		for i := range d {
			if s.Chance(4, 5) {
				d[i] = n
			}
		}
		for ref.Prod(d) > maxElems {
			d = d[1:]
		}
	}
	draw := func(n int) []float64 {
		if wild && s.Chance(1, 4) {
			return s.WildN(n)
		}
		return s.NiceN(n)
	}
	lv := []lib.L{{S: d, V: draw(ref.Prod(d)), T: s.Bool()}}
	for k := s.Range(1, 4); k > 0; k-- {
		sh := append([]int{}, lv[0].S...)
		v := likeness(s, eng.Pick(s, lv[:1]).V)
		switch s.Weighted(5, 2, 1) {
		case 1:
			sh = s.Sub(sh)
			v = draw(ref.Prod(sh))
		case 2: // the same values in another shape
			sh = drawFactor(s, len(v), 4)
		}
		lv = append(lv, lib.L{S: sh, V: v, T: s.Bool()})
	}
	return lv
}

// genSeq draws a sequence of operations of these kinds.
func genSeq(kinds []string, queries []string, maxElems int, wild bool) func(s *eng.Src) Seq {
	return func(s *eng.Src) Seq {
		var c Seq
		c.Lv = seqLeaves(s, maxElems, wild)
		tp := ref.NewTape()
		tp.NoGrad = true
		var nodes []*ref.T
		for _, l := range c.Lv {
			nodes = append(nodes, tp.Leaf(l.S, append([]float64{}, l.V...)))
		}
		o := progOpts{maxElems: 4 * maxElems, maxRank: 6, explicitB: true}
		ns := s.Range(2, 9)
		for len(c.St) < ns {
			var st Step
			ok := false
			if len(c.St) > 0 && s.Chance(3, 5) {
				st = variation(s, c.St[len(c.St)-1-s.Intn(min(3, len(c.St)))], nodes)
				_, ok = seqShape(st, nodes)
			}
			for try := 0; try < 8 && !ok; try++ {
				pick := func() int {
					if s.Chance(1, 4) {
						return len(nodes) - 1 - s.Intn(len(nodes))
					}
					return s.Intn(len(c.Lv))
				}
				if len(queries) > 0 && s.Chance(1, 4) {
					st = Step{Op: ref.Op{K: eng.Pick(s, queries)}, In: []int{pick()}}
					switch st.K {
					case qEquals:
						st.In = append(st.In, pick())
					case qAt:
						for _, d := range nodes[st.In[0]].Shape {
							st.S = append(st.S, s.Intn(d))
						}
					}
				} else {
					st.Op, st.In, ok = drawOp(s, eng.Pick(s, kinds), nodes, pick, o)
					if !ok {
						continue
					}
				}
				_, ok = seqShape(st, nodes)
			}
			if !ok {
				break
			}
			if s.Chance(1, 8) {
				if o, bad := spoiled(s, st, nodes); bad {
					c.Bad = append(c.Bad, SBad{len(c.St), o})
				}
			}
			sh, _ := seqShape(st, nodes)
			if !isQuery(st.K) && (ref.Prod(sh) > 8*maxElems || len(sh) > 6) {
				break
			}
			c.St = append(c.St, st)
			if isQuery(st.K) {
				continue
			}
			in := make([]*ref.T, len(st.In))
			for i, j := range st.In {
				in[i] = nodes[j]
			}
			nodes = append(nodes, tp.Apply(st.Op, in...))
		}
		return c
	}
}

func hasNaN(l []float64) bool {
	for _, v := range l {
		if v != v {
			return true
		}
	}
	return false
}

// near240 tells whether a position is too close for the library's equality,
// or not a number.
func near240(a, b []float64) bool {
	if hasNaN(a) || hasNaN(b) {
		return true
	}
	for i := range a {
		if d := math.Abs(a[i] - b[i]); d != 0 && d < 1e-200 {
			return true
		}
	}
	return false
}

func checkSeq(c Seq, x *eng.Ctx) error {
	n := len(c.Lv) + len(c.St)
	ts := make([]lib.Tensor, 0, n)
	vs := make([]*ref.T, 0, n) // what they hold
	for _, l := range c.Lv {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return err
		}
		ts = append(ts, t)
		vs = append(vs, &ref.T{Shape: l.S, V: l.V})
	}
	compared := 0
	for k, st := range c.St {
		for _, b := range c.Bad {
			if b.At != k {
				continue
			}
			in := make([]lib.Tensor, len(b.St.In))
			for i, j := range b.St.In {
				in[i] = ts[j]
			}
			var err error
			switch {
			case b.St.K == qEquals:
				_, err = in[0].Equals(in[1])
			case b.St.K == qAt:
				_, err = in[0].At(b.St.S...)
			default:
				_, err = lib.Raw(b.St.Op, in...)
			}
			if err == nil {
				return fmt.Errorf("before step %d: invalid %s of nodes %v accepted", k, b.St.K, b.St.In)
			}
			x.Label("rejected calls")
		}
		in := make([]lib.Tensor, len(st.In))
		rin := make([]*ref.T, len(st.In))
		for i, j := range st.In {
			in[i], rin[i] = ts[j], vs[j]
		}
		what := fmt.Sprintf("step %d, %s of nodes %v", k, st.K, st.In)
		switch {
		case st.K == qEquals:
			got, err := in[0].Equals(in[1])
			if err != nil {
				return fmt.Errorf("%s: rejected: %v", what, err)
			}
			want := true
			for p := range rin[0].V {
				if rin[0].V[p] != rin[1].V[p] {
					want = false
				}
			}
			if got != want && !near240(rin[0].V, rin[1].V) {
				return fmt.Errorf("%s: is %v, want %v", what, got, want)
			}
			compared++
			continue
		case st.K == qAt:
			got, err := in[0].At(append([]int{}, st.S...)...)
			if err != nil {
				return fmt.Errorf("%s: rejected: %v", what, err)
			}
			p := 0
			for i, q := range st.S {
				p = p*rin[0].Shape[i] + q
			}
			if !lib.Same(got, rin[0].V[p]) {
				return fmt.Errorf("%s %v: is %v, want %v", what, st.S, got, rin[0].V[p])
			}
			compared++
			continue
		case isQuery(st.K):
			k := st.K[3:]
			f := map[string]func() float64{"Sum": in[0].Sum, "Max": in[0].Max, "Min": in[0].Min, "Avg": in[0].Avg, "Var": in[0].Var, "Std": in[0].Std, "Mean": in[0].Mean}[k]
			got := f()
			if tol, ok := statTol(k, rin[0].V); ok {
				if err := lib.Near(got, ref.Stat(k, rin[0].V), tol); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				compared++
			}
			continue
		}
		tp := ref.NewTape()
		tp.NoGrad = true
		o := tp.Apply(st.Op, rin...)
		y, err := lib.Apply(st.Op, in...)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		what += ": " + lib.Desc(st.Op, in...)
		skip := false
		switch {
		case st.K == "Eq" || st.K == "Ne":
			d := tp.Apply(ref.Op{K: "Sub"}, rin...)
			skip = near240(d.V, make([]float64, len(d.V)))
			fallthrough
		default:
			tol, ok := fwdTol(st.Op, rin, o)
			for _, t := range rin {
				if hasNaN(t.V) {
					skip = true
				}
			}
			if skip || !ok {
				err = lib.CheckShape(what, y, o.Shape)
				break
			}
			err = lib.CheckNear(what, y, o.Shape, o.V, func(p int) float64 { return tol[p] })
			compared++
		case seqMoves(st.K):
			err = lib.CheckBits(what, y, o.Shape, o.V)
			compared++
		}
		if err != nil {
			return err
		}
		_, got, err := lib.Read(y)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		ts, vs = append(ts, y), append(vs, &ref.T{Shape: o.Shape, V: got})
		x.Label("op " + st.K)
	}
	for i, t := range ts {
		if err := lib.CheckBits(fmt.Sprintf("node %d at the end of the sequence", i), t, vs[i].Shape, vs[i].V); err != nil {
			return err
		}
	}
	if compared > 1 {
		x.NonTrivial()
	}
	return nil
}

func seqMoves(k string) bool {
	if k == "Transpose" {
		return true
	}
	for _, m := range moveOps {
		if k == m {
			return true
		}
	}
	return false
}

func seqPart(quick, thorough int, kinds []string, queries []string, maxElems int, wild bool) eng.AnyPart {
	return eng.Part[Seq]{Name: "operation sequences on few tensors", Quick: quick, Thorough: thorough, Check: checkSeq, Gen: genSeq(kinds, queries, maxElems, wild)}
}

// GSeq is a sequence of rounds on the same leaves. In a round several
// operations are applied, each result is weighted and back-propagated; then
// all leaves are reset, with another choice of the tracked ones.
type GSeq struct {
	Lv []lib.L  `json:"leaves"`
	R  []GRound `json:"rounds"`
}

type GRound struct {
	T     uint32 `json:"t"` // tracked leaves
	St    []Step `json:"steps"`
	Joint bool   `json:"joint,omitempty"` // one back-propagation from the sum of all weighted results
	Rev   bool   `json:"rev,omitempty"`   // results back-propagated in reverse order
}

func genGSeq(kinds []string, maxElems int, explicit bool) func(s *eng.Src) GSeq {
	return func(s *eng.Src) GSeq {
		var c GSeq
		c.Lv = seqLeaves(s, maxElems, false)
		pos := s.Bool()
		for _, l := range c.Lv {
			for i, v := range l.V {
				if pos {
					l.V[i] = math.Abs(v) + 0.25
				}
				l.V[i] += float64(i) * 0x1p-12
			}
		}
		tp := ref.NewTape()
		tp.NoGrad = true
		var nodes []*ref.T
		for _, l := range c.Lv {
			nodes = append(nodes, tp.Leaf(l.S, append([]float64{}, l.V...)))
		}
		o := progOpts{maxElems: 4 * maxElems, maxRank: 6, explicitB: explicit}
		var all []Step
		for nr := s.Range(1, 3); nr > 0; nr-- {
			r := GRound{T: uint32(s.Range(1, 1<<len(c.Lv)-1)), Joint: s.Chance(1, 3), Rev: s.Bool()}
			if s.Bool() {
				r.T = 1<<len(c.Lv) - 1
			}
			ns := s.Range(1, 4)
			for try := 0; len(r.St) < ns && try < 12; try++ {
				var st Step
				ok := true
				if len(all) > 0 && s.Chance(3, 5) {
					st = variation(s, all[len(all)-1-s.Intn(min(3, len(all)))], nodes)
				} else {
					st.Op, st.In, ok = drawOp(s, eng.Pick(s, kinds), nodes, func() int { return s.Intn(len(nodes)) }, o)
				}
				if !ok || st.K == "Broadcast" && !explicit {
					continue
				}
				sh, ok := seqShape(st, nodes)
				if !ok || ref.Prod(sh) > 8*maxElems || len(sh) > 6 {
					continue
				}
				in := make([]*ref.T, len(st.In))
				for i, j := range st.In {
					in[i] = nodes[j]
				}
				if !safe(st.Op, in) {
					continue
				}
				r.St = append(r.St, st)
				all = append(all, st)
			}
			c.R = append(c.R, r)
		}
		return c
	}
}

func checkGSeq(c GSeq, x *eng.Ctx) error {
	var ts []lib.Tensor
	for i, l := range c.Lv {
		t, err := lib.Build(l.S, l.V, len(c.R) > 0 && c.R[0].T>>i&1 != 0)
		if err != nil {
			return err
		}
		ts = append(ts, t)
	}
	steps := 0
	for q, r := range c.R {
		if q > 0 {
			for i, t := range ts {
				t.ResetGradContext(r.T>>i&1 != 0)
			}
		}
		tp := ref.NewTape()
		tp.Margin = 1e-6
		var leaves []*ref.T
		for _, l := range c.Lv {
			leaves = append(leaves, tp.Leaf(l.S, append([]float64{}, l.V...)))
		}
		a := tp.NewAdj()
		reached := make([]bool, len(ts))
		var roots []lib.Tensor
		for k, st := range r.St {
			in := make([]lib.Tensor, len(st.In))
			rin := make([]*ref.T, len(st.In))
			tr := false
			for i, j := range st.In {
				in[i], rin[i] = ts[j], leaves[j]
				tr = tr || r.T>>j&1 != 0
				reached[j] = true
			}
			o := tp.Apply(st.Op, rin...)
			w := fill(uint64(17*q+k), len(o.V))
			y, err := lib.Apply(st.Op, in...)
			if err != nil {
				return fmt.Errorf("round %d step %d: %v", q, k, err)
			}
			if err := lib.CheckShape(fmt.Sprintf("round %d step %d: %s", q, k, lib.Desc(st.Op, in...)), y, o.Shape); err != nil {
				return err
			}
			wt, err := lib.Build(o.Shape, w, false)
			if err != nil {
				return err
			}
			z, err := y.Mul(wt)
			if err != nil {
				return fmt.Errorf("round %d step %d: weighting rejected: %v", q, k, err)
			}
			if tr {
				steps++
			}
			if r.Joint {
				if z, err = z.Reshape([]int{len(o.V)}); err == nil {
					z, err = z.SumAlong(0)
				}
				if err == nil && len(roots) > 0 {
					z, err = roots[0].Add(z)
					roots = nil
				}
				if err != nil {
					return fmt.Errorf("round %d step %d: summing up: %v", q, k, err)
				}
			}
			roots = append(roots, z)
			a.Add(tp.BackW(o, w))
			x.Label("op " + st.K)
		}
		if tp.NonDiff {
			x.Skip()
			return nil
		}
		for k := range roots {
			if r.Rev {
				k = len(roots) - 1 - k
			}
			if err := tensor.BackPropagate(roots[k]); err != nil {
				return fmt.Errorf("round %d: BackPropagate from weighted result %d failed: %v", q, k, err)
			}
		}
		cmp := func(d []float64) error {
			for i, t := range ts {
				g := t.Gradient()
				if !reached[i] || r.T>>i&1 == 0 {
					if g != nil {
						return fmt.Errorf("round %d: leaf %d has a gradient although it is untracked or was not used", q, i)
					}
					continue
				}
				want, abs, er := ref.Of(d, leaves[i]), ref.Of(a.Abs, leaves[i]), ref.Of(a.Err, leaves[i])
				if g == nil {
					return fmt.Errorf("round %d: leaf %d has no gradient", q, i)
				}
				if err := lib.CheckNear(fmt.Sprintf("round %d: gradient of leaf %d", q, i), g, c.Lv[i].S, want, func(p int) float64 {
					return 1e-10*abs[p] + 16*er[p] + 1e-290
				}); err != nil {
					return err
				}
			}
			return nil
		}
		err := cmp(a.D)
		if err != nil && tp.Expanding && cmp(a.Alt) == nil && x.Known(findMean) {
			x.Label("known: explicit broadcast averages")
			err = nil
		}
		if err != nil {
			return err
		}
	}
	if steps > 1 {
		x.NonTrivial()
	}
	return nil
}

func gseqPart(quick, thorough int, kinds []string, maxElems int, explicit bool) eng.AnyPart {
	return eng.Part[GSeq]{Name: "operation sequences with resets on few tensors", Quick: quick, Thorough: thorough, Check: checkGSeq, Gen: genGSeq(kinds, maxElems, explicit)}
}

func seqArith() []string {
	var k []string
	for _, l := range [][]string{ref.Unary, ref.Arith, ref.Arith, ref.Compare, ref.ElMM} {
		k = append(k, l...)
	}
	return k
}
