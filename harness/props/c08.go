package props

import (
	"errors"
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

// Ev is one event of a tracking history. Every "new", "op" and "grad" event
// creates the next node.
type Ev struct {
	K  string `json:"k"` // new, op, bp, reset, grad, bad (a call that must be rejected)
	L  lib.L  `json:"l,omitempty"`
	Op ref.Op `json:"op,omitempty"`
	In []int  `json:"in,omitempty"`
	N  int    `json:"n,omitempty"`
	B  bool   `json:"b,omitempty"`
}

type Hist struct {
	Ev []Ev `json:"ev"`
}

// hnode is the model of one tensor's tracking state.
type hnode struct {
	v       *ref.T
	tracked bool
	dirty   bool // spent, or computed from a spent tensor
	spent   bool // took part in a back-propagation
	murky   bool // comparison of a spent tensor, or a gradient tensor
	in      []int
	from    []int    // every operand, tracked or not
	acc     *ref.Adj // accumulated gradient (nil: none)
}

// hmodel is the reference state machine.
type hmodel struct {
	tape *ref.Tape
	n    []*hnode
}

func newHModel() *hmodel { return &hmodel{tape: ref.NewTape()} }

func (m *hmodel) add(l lib.L) {
	m.n = append(m.n, &hnode{v: m.tape.Leaf(l.S, append([]float64{}, l.V...)), tracked: l.T})
}

// opState returns the tracking state of a result; ok is false where the
// property leaves it open.
func (m *hmodel) opState(op ref.Op, in []int) (tracked, dirty, murky, ok bool) {
	for _, j := range in {
		tracked = tracked || m.n[j].tracked
		dirty = dirty || m.n[j].dirty
		murky = murky || m.n[j].murky
	}
	switch {
	case ref.IsCompare(op.K):
		return false, false, dirty || murky, true
	case dirty:
		return false, true, false, true
	case murky:
		return false, false, true, !tracked
	}
	return tracked, false, false, true
}

func (m *hmodel) op(op ref.Op, in []int) *hnode {
	tr, di, mu, _ := m.opState(op, in)
	args := make([]*ref.T, len(in))
	for i, j := range in {
		args[i] = m.n[j].v
	}
	v := m.tape.Apply(op, args...)
	h := &hnode{v: v, tracked: tr, dirty: di, murky: mu, from: append([]int{}, in...)}
	if tr {
		h.in = append([]int{}, in...)
	} else {
		// an untracked result starts anew
		h.v = m.tape.Leaf(v.Shape, append([]float64{}, v.V...))
	}
	m.n = append(m.n, h)
	return h
}

// reach is the set of tracked tensors a back-propagation from i passes through.
func (m *hmodel) reach(i int, s map[int]bool) {
	if !m.n[i].tracked || s[i] {
		return
	}
	s[i] = true
	for _, j := range m.n[i].in {
		m.reach(j, s)
	}
}

// bpOK is proviso (a): no spent non-leaf is passed through again.
func (m *hmodel) bpOK(i int) bool {
	s := map[int]bool{}
	m.reach(i, s)
	for j := range s {
		if m.n[j].spent && len(m.n[j].in) > 0 {
			return false
		}
	}
	return true
}

// resetOK is proviso (b): no tracked unspent result was computed from i.
func (m *hmodel) resetOK(i int) bool {
	for j, h := range m.n {
		if j == i || !h.tracked || h.spent {
			continue
		}
		s := map[int]bool{}
		m.sources(j, s)
		if s[i] {
			return false
		}
	}
	return true
}

func (m *hmodel) sources(i int, s map[int]bool) {
	if s[i] {
		return
	}
	s[i] = true
	for _, j := range m.n[i].from {
		m.sources(j, s)
	}
}

func (m *hmodel) bp(i int) {
	if !m.n[i].tracked {
		return
	}
	s := map[int]bool{}
	m.reach(i, s)
	a := m.tape.Back(m.n[i].v)
	for j := range s {
		h := m.n[j]
		h.spent, h.dirty = true, true
		if h.acc == nil {
			h.acc = &ref.Adj{}
		}
		h.acc.Add(a)
	}
}

func (m *hmodel) reset(i int, b bool) {
	h := m.n[i]
	m.n[i] = &hnode{v: m.tape.Leaf(h.v.Shape, append([]float64{}, h.v.V...)), tracked: b}
	// results computed from the old tensor keep their own history; none of
	// them may be back-propagated again through it
	for j, k := range m.n {
		if j == i {
			continue
		}
		ghost := -1 // the retired state
		for _, l := range [][]int{k.in, k.from} {
			for q, x := range l {
				if x != i {
					continue
				}
				if ghost < 0 {
					ghost = len(m.n)
					m.n = append(m.n, h)
				}
				l[q] = ghost
			}
		}
	}
}

func genHist(kinds []string, maxEv int) func(s *eng.Src) Hist {
	return func(s *eng.Src) Hist {
		var c Hist
		m := newHModel()
		var g []int
		isGrad := map[int]bool{}
		made := map[int]int{} // the event that made a node
		do := func(e Ev) {
			c.Ev = append(c.Ev, e)
			m.step(e, &g, nil)
		}
		o := progOpts{maxElems: 12, maxRank: 3, explicitB: true}
		base := []int{}
		if s.Big {
			o.maxElems, o.maxRank = 2000, 4
			if s.Floor > 0 {
				o.maxElems = 140000
			}
			base = s.Shape(0, 3, o.maxElems)
		} else {
			base = s.Shape(0, 2, 6)
			s.Deep(&base, 6, &o.maxRank)
		}
		newLeaf := func() {
			sh := append([]int{}, base...)
			if s.Chance(1, 4) {
				sh = s.Sub(base)
			}
			do(Ev{K: "new", L: lib.L{S: sh, V: s.NiceN(ref.Prod(sh)), T: s.Chance(3, 4)}})
		}
		newLeaf()
		n := s.Range(2, maxEv)
		for len(c.Ev) < n {
			pick := func() int { return len(g) - 1 - s.Intn(len(g)) }
			// apply op where the property settles its outcome
			try := func(op ref.Op, in []int) bool {
				gi, args := make([]int, len(in)), make([]*ref.T, len(in))
				for i, j := range in {
					gi[i], args[i] = g[j], m.n[g[j]].v
				}
				if _, _, _, ok := m.opState(op, gi); !ok || !safe(op, args) {
					return false
				}
				do(Ev{K: "op", Op: op, In: in})
				made[len(g)-1] = len(c.Ev) - 1
				return true
			}
			reset := func(i int, b bool) bool {
				if isGrad[i] || !m.resetOK(g[i]) {
					return false
				}
				do(Ev{K: "reset", N: i, B: b})
				return true
			}
			earlier := func() (node int, e Ev, ok bool) {
				var l []int
				for i := len(g) - 1; i >= 0; i-- {
					if _, ok := made[i]; ok {
						l = append(l, i)
					}
				}
				if len(l) == 0 {
					return 0, Ev{}, false
				}
				node = eng.Pick(s, l)
				return node, c.Ev[made[node]], true
			}
			switch s.Weighted(10, 3, 3, 2, 1, 2, 2, 1) {
			case 7: // a call that is rejected
				local := make([]*ref.T, len(g))
				for i, j := range g {
					local[i] = m.n[j].v
				}
				invalid := func(e IEv) bool {
					shapes := make([][]int, len(e.In))
					for i, j := range e.In {
						if j < 0 {
							return true
						}
						shapes[i] = local[j].Shape
					}
					_, ok := ref.OutShape(e.Op, shapes...)
					return !ok
				}
				var e IEv
				for tries := 0; tries < 6; tries++ {
					e = badCall(s, local, kinds, o, pick)
					if e.K == "bp" || e.K == "op" && invalid(e) {
						break
					}
					e = IEv{}
				}
				if e.K == "" {
					newLeaf()
					continue
				}
				do(Ev{K: "bad", Op: e.Op, In: e.In})
			case 5: // an earlier operation again, perhaps after it was retired
				i, e, ok := earlier()
				if !ok {
					newLeaf()
					continue
				}
				if s.Bool() && m.bpOK(g[i]) {
					do(Ev{K: "bp", N: i})
				}
				if s.Chance(2, 3) {
					for _, j := range e.In {
						if m.n[g[j]].dirty || s.Chance(1, 8) {
							reset(j, !s.Chance(1, 6))
						}
					}
				}
				if try(e.Op, append([]int{}, e.In...)) && s.Bool() && m.bpOK(g[len(g)-1]) {
					do(Ev{K: "bp", N: len(g) - 1})
				}
			case 6: // an operation undone, or one that changes nothing
				i, e, ok := earlier()
				var inv ref.Op
				if !ok {
					i = pick()
					inv = inverseOf(s, ref.Op{}, []*ref.T{m.n[g[i]].v}, m.n[g[i]].v)
				} else {
					args := make([]*ref.T, len(e.In))
					for q, j := range e.In {
						args[q] = m.n[g[j]].v
					}
					inv = inverseOf(s, e.Op, args, m.n[g[i]].v)
				}
				if !try(inv, []int{i}) {
					newLeaf()
					continue
				}
				switch s.Intn(4) {
				case 0:
					reset(len(g)-1, s.Bool())
				case 1:
					if ok && reset(i, s.Bool()) {
						reset(len(g)-1, s.Bool())
					}
				case 2:
					if m.bpOK(g[len(g)-1]) {
						do(Ev{K: "bp", N: len(g) - 1})
					}
				}
			case 1:
				i := pick()
				if s.Bool() {
					i = len(g) - 1
				}
				if !m.bpOK(g[i]) {
					newLeaf()
					continue
				}
				do(Ev{K: "bp", N: i})
			case 2:
				i := pick()
				// gradient tensors may be shared by several nodes: not reset
				if isGrad[i] || !m.resetOK(g[i]) {
					newLeaf()
					continue
				}
				do(Ev{K: "reset", N: i, B: s.Chance(2, 3)})
			case 3:
				newLeaf()
			case 4:
				i := pick()
				if m.n[g[i]].acc == nil {
					newLeaf()
					continue
				}
				isGrad[len(g)] = true
				do(Ev{K: "grad", N: i})
			default:
				local := make([]*ref.T, len(g))
				for i, j := range g {
					local[i] = m.n[j].v
				}
				st := s.Intn(len(kinds))
				done := false
				for tries := 0; tries < 10 && !done; tries++ {
					k := kinds[(st+tries*7)%len(kinds)]
					op, in, ok := drawOp(s, k, local, pick, o)
					if !ok {
						continue
					}
					done = try(op, in)
				}
				if !done {
					newLeaf()
				}
			}
		}
		return c
	}
}

// modelOf replays a history on the model alone.
func modelOf(c Hist) (m *hmodel, g []int) {
	m = newHModel()
	for _, e := range c.Ev {
		m.step(e, &g, nil)
	}
	return m, g
}

// step applies one event to the model; g maps history nodes to model nodes.
// vals, when not nil, are the values to take over for a new node.
func (m *hmodel) step(e Ev, g *[]int, vals []float64) {
	switch e.K {
	case "new":
		m.add(e.L)
		*g = append(*g, len(m.n)-1)
	case "op":
		in := make([]int, len(e.In))
		for i, j := range e.In {
			in[i] = (*g)[j]
		}
		h := m.op(e.Op, in)
		if vals != nil {
			m.tape.SetValues(h.v, vals)
		}
		*g = append(*g, len(m.n)-1)
	case "bp":
		m.bp((*g)[e.N])
	case "reset":
		m.reset((*g)[e.N], e.B)
	case "grad":
		h := m.n[(*g)[e.N]]
		v := vals
		if v == nil {
			v = append([]float64{}, ref.Of(h.acc.D, h.v)...)
		}
		m.n = append(m.n, &hnode{v: m.tape.Leaf(h.v.Shape, v), murky: true})
		*g = append(*g, len(m.n)-1)
	}
}

// errAccepted: a call the history takes for invalid was accepted (C09 judges).
var errAccepted = errors.New("accepted")

// exec08 runs a history on the library and on the model. Errors starting with
// "skip" mean that the comparison is not meaningful.
func exec08(c Hist, track bool, x *eng.Ctx) (ts []lib.Tensor, m *hmodel, g []int, err error) {
	m = newHModel()
	m.tape.Margin = 0
	grads := map[int]lib.Tensor{}
	gvals := map[int][]float64{}
	for k, e := range c.Ev {
		what := fmt.Sprintf("event %d (%s)", k, e.K)
		switch e.K {
		case "new":
			t, err := lib.Build(e.L.S, e.L.V, e.L.T && track)
			if err != nil {
				return nil, nil, nil, err
			}
			ts = append(ts, t)
			m.step(e, &g, nil)
		case "op":
			in := make([]lib.Tensor, len(e.In))
			for i, j := range e.In {
				in[i] = ts[j]
			}
			y, err := lib.Apply(e.Op, in...)
			if err != nil {
				return nil, nil, nil, fmt.Errorf("%s: %v", what, err)
			}
			ts = append(ts, y)
			_, v, err := lib.Read(y)
			if err != nil {
				return nil, nil, nil, fmt.Errorf("%s: %v", what, err)
			}
			m.step(e, &g, nil)
			h := m.n[g[len(g)-1]]
			if !ref.EqShape(y.Shape(), h.v.Shape) {
				return nil, nil, nil, fmt.Errorf("%s: %s has shape %v, want %v", what, lib.Desc(e.Op, in...), y.Shape(), h.v.Shape)
			}
			m.tape.SetValues(h.v, v)
		case "bad":
			in := make([]lib.Tensor, len(e.In))
			for i, j := range e.In {
				if j >= 0 {
					in[i] = ts[j]
				}
			}
			var err error
			if e.Op.K == "" {
				err = tensor.BackPropagate(nil)
			} else {
				_, err = lib.Raw(e.Op, in...)
			}
			if err == nil {
				x.Skip()
				return nil, nil, nil, errAccepted
			}
		case "bp":
			if err := tensor.BackPropagate(ts[e.N]); err != nil {
				return nil, nil, nil, fmt.Errorf("%s: BackPropagate failed: %v", what, err)
			}
			m.step(e, &g, nil)
		case "reset":
			ts[e.N].ResetGradContext(e.B && track)
			m.step(e, &g, nil)
		case "grad":
			if !track {
				// the twin takes the values recorded by the tracked run
				t, err := lib.Build(e.L.S, e.L.V, false)
				if err != nil {
					return nil, nil, nil, err
				}
				ts = append(ts, t)
				m.step(Ev{K: "new", L: e.L}, &g, nil)
				break
			}
			t := ts[e.N].Gradient()
			if t == nil {
				return nil, nil, nil, fmt.Errorf("%s: node %d has no gradient", what, e.N)
			}
			_, v, err := lib.Read(t)
			if err != nil {
				return nil, nil, nil, err
			}
			ts = append(ts, t)
			m.step(e, &g, v)
			c.Ev[k].L = lib.L{S: t.Shape(), V: v}
		}
		if !track {
			for i, t := range ts {
				if t.Gradient() != nil {
					return nil, nil, nil, fmt.Errorf("%s: node %d of a history without tracked tensors has a gradient", what, i)
				}
			}
			continue
		}
		full := e.K == "bp" || e.K == "bad" || e.K == "reset" || k == len(c.Ev)-1
		for i, t := range ts {
			h := m.n[g[i]]
			gr := t.Gradient()
			if (gr != nil) != (h.acc != nil) {
				return nil, nil, nil, fmt.Errorf("state: after %s, node %d %s a gradient, want the opposite (tracked %v, spent %v)", what, i, has(gr != nil), h.tracked, h.spent)
			}
			if gr == nil {
				delete(grads, i)
				continue
			}
			if !full {
				if gr != grads[i] {
					if err := lib.CheckBits(fmt.Sprintf("state: after %s, although nothing was back-propagated: gradient of node %d", what, i), gr, h.v.Shape, gvals[i]); err != nil {
						return nil, nil, nil, err
					}
				}
				continue
			}
			want, abs, er := ref.Of(h.acc.D, h.v), ref.Of(h.acc.Abs, h.v), ref.Of(h.acc.Err, h.v)
			cmp := func(w []float64) error {
				return lib.CheckNear(fmt.Sprintf("after %s: gradient of node %d", what, i), gr, h.v.Shape, w, func(p int) float64 { return 1e-9*abs[p] + 8*er[p] + 1e-13 })
			}
			wild := false
			for p := range abs {
				wild = wild || !(abs[p] < 1e60) || math.IsNaN(want[p])
			}
			if wild || m.tape.NonDiff {
				x.Label("values not compared")
			} else if err := cmp(want); err != nil {
				// averaging of explicit broadcasts is recorded under C01 and C07
				if !m.tape.Expanding || cmp(ref.Of(h.acc.Alt, h.v)) != nil {
					return nil, nil, nil, err
				}
			}
			_, v, err := lib.Read(gr)
			if err != nil {
				return nil, nil, nil, err
			}
			// the back-propagation of other graphs leaves a gradient as it was
			if old, ok := gvals[i]; ok && grads[i] == gr {
				for p := range v {
					if !lib.Same(old[p], v[p]) {
						return nil, nil, nil, fmt.Errorf("state: after %s, the gradient tensor of node %d has changed its values", what, i)
					}
				}
			}
			grads[i], gvals[i] = gr, v
		}
	}
	return ts, m, g, nil
}

func has(b bool) string {
	if b {
		return "has"
	}
	return "does not have"
}

func checkHist(c Hist, x *eng.Ctx) error {
	ev := append([]Ev{}, c.Ev...)
	c = Hist{ev}
	ts, m, g, err := exec08(c, true, x)
	if err == errAccepted {
		return nil
	}
	if err != nil {
		return err
	}
	// tracking never changes forward values
	tw, _, _, err := exec08(Hist{append([]Ev{}, ev...)}, false, x)
	if err != nil {
		return fmt.Errorf("without tracking: %v", err)
	}
	bps, resets, spentOps, rejected := 0, 0, 0, 0
	for _, e := range ev {
		switch e.K {
		case "bp":
			bps++
		case "bad":
			rejected++
		case "reset":
			resets++
		}
	}
	for i := range ts {
		if m.n[g[i]].dirty && !m.n[g[i]].spent {
			spentOps++
		}
		_, v, err := lib.Read(tw[i])
		if err != nil {
			return err
		}
		if err := lib.CheckBits(fmt.Sprintf("node %d against the same computation without tracking", i), ts[i], tw[i].Shape(), v); err != nil {
			return err
		}
	}
	// probe every tensor: is it tracked, is it spent?
	step := 1
	if len(ts) > 8 {
		step = 1 + len(ts)/8
	}
	for i := (len(ev) % step); i < len(ts); i += step {
		h := m.n[g[i]]
		if m.bpOK(g[i]) {
			p := Hist{append(append([]Ev{}, ev...), Ev{K: "bp", N: i})}
			if _, _, _, err := exec08(p, true, x); err != nil {
				return fmt.Errorf("probe by back-propagating from node %d: %v", i, err)
			}
		}
		if !h.murky {
			sh := ts[i].Shape()
			one := lib.L{S: sh, V: fill(9, ref.Prod(sh)), T: true}
			n := len(ts)
			in := []int{n, i}
			if i%2 == 0 {
				in = []int{i, n}
			}
			p := Hist{append(append([]Ev{}, ev...), Ev{K: "new", L: one}, Ev{K: "op", Op: ref.Op{K: "Sub"}, In: in})}
			pm, pg := modelOf(p)
			if pm.bpOK(pg[n+1]) {
				p.Ev = append(p.Ev, Ev{K: "bp", N: n + 1})
				if _, _, _, err := exec08(p, true, x); err != nil {
					return fmt.Errorf("probe by combining node %d with a fresh leaf: %v", i, err)
				}
			}
		}
	}
	if bps > 0 {
		x.Label("with a back-propagation")
	}
	if rejected > 0 {
		x.Label("with rejected calls")
	}
	if resets > 0 {
		x.Label("with a reset")
	}
	if spentOps > 0 {
		x.Label("with operations on spent tensors")
	}
	if bps > 0 && (resets > 0 || spentOps > 0) {
		x.NonTrivial()
	}
	return nil
}

// OneOp is the tracking rule for one operation and one state per operand.
type OneOp struct {
	Op    ref.Op  `json:"op"`
	Lv    []lib.L `json:"leaves"`
	State []int   `json:"state"`
}

// states of an operand: untracked leaf, tracked leaf, tracked result, spent
// leaf, spent result, result of a spent tensor, tensor reset to tracked after
// being spent, tensor reset to untracked, spent leaf reset twice.
const nStates = 8

func (c OneOp) hist() Hist {
	var h Hist
	n := 0
	idx := make([]int, len(c.Lv))
	add := func(e Ev) int {
		h.Ev = append(h.Ev, e)
		if e.K == "new" || e.K == "op" {
			n++
		}
		return n - 1
	}
	for i, l := range c.Lv {
		st := c.State[i]
		l.T = st != 0
		a := add(Ev{K: "new", L: l})
		same := func(j int) int { return add(Ev{K: "op", Op: ref.Op{K: "Scale", A: 1}, In: []int{j}}) }
		switch st {
		case 2:
			a = same(a)
		case 3:
			add(Ev{K: "bp", N: same(a)})
		case 4:
			b := same(a)
			add(Ev{K: "bp", N: b})
			a = b
		case 5:
			add(Ev{K: "bp", N: a})
			a = same(a)
		case 6:
			b := same(a)
			add(Ev{K: "bp", N: b})
			add(Ev{K: "reset", N: b, B: true})
			a = b
		case 7:
			add(Ev{K: "bp", N: a})
			add(Ev{K: "reset", N: a})
		}
		idx[i] = a
	}
	y := add(Ev{K: "op", Op: c.Op, In: idx})
	add(Ev{K: "bp", N: y})
	// the result of the result
	z := add(Ev{K: "op", Op: ref.Op{K: "Scale", A: 2}, In: []int{y}})
	add(Ev{K: "bp", N: z})
	return h
}

func checkOneOp(c OneOp, x *eng.Ctx) error {
	h := c.hist()
	_, _, _, err := exec08(h, true, x)
	if err != nil {
		return fmt.Errorf("%s with operand states %v: %v", c.Op.K, c.State, err)
	}
	x.Label("op " + c.Op.K)
	x.NonTrivial()
	return nil
}

func enumOneOp(th bool, yield func(OneOp) bool) {
	ops := append(append([]string{}, ref.AllDiff()...), ref.Compare...)
	for _, k := range ops {
		var op ref.Op
		var in [][]int
		op.K = k
		switch k {
		case "Scale":
			op.A = -2
		case "Pow":
			op.A = 2
		}
		a := []int{2, 3}
		switch {
		case k == "Slice":
			op.R = [][2]int{{0, 2}, {1, 3}}
			in = [][]int{a}
		case k == "Patch":
			op.R = [][2]int{{1, 2}, {0, 2}}
			in = [][]int{a, {1, 2}}
		case k == "Reshape":
			op.S = []int{3, 2}
			in = [][]int{a}
		case k == "Broadcast":
			op.S = []int{1, 2, 3}
			in = [][]int{a}
		case k == "Squeeze":
			op.D = 1
			in = [][]int{{2, 1, 3}}
		case k == "UnSqueeze", k == "Flatten", ref.IsReduce(k):
			op.D = 0
			in = [][]int{a}
		case k == "MatMul":
			in = [][]int{a, {3, 2}}
		case k == "Concat":
			in = [][]int{a, a, a}
		case ref.NIn(k) == 2:
			in = [][]int{a, a}
		default:
			in = [][]int{a}
		}
		tot := 1
		for range in {
			tot *= nStates
		}
		for q := 0; q < tot; q++ {
			c := OneOp{Op: op}
			r := q
			for i, s := range in {
				c.State = append(c.State, r%nStates)
				r /= nStates
				v := fill(uint64(100+i), ref.Prod(s))
				if ref.IsElMM(k) && i == 1 {
					for j := range v {
						v[j] += 1e-3
					}
				}
				domain(op, i, v)
				c.Lv = append(c.Lv, lib.L{S: s, V: v})
			}
			if !yield(c) {
				return
			}
		}
		// many operands, one of them in another state than the others
		if k == "Concat" {
			for n := 4; n <= 12; n++ {
				for at := 0; at < n; at++ {
					for q := 0; q < nStates*nStates; q++ {
						c := OneOp{Op: op}
						for i := 0; i < n; i++ {
							st := q / nStates
							if i == at {
								st = q % nStates
							}
							c.State = append(c.State, st)
							c.Lv = append(c.Lv, lib.L{S: []int{1, 2}, V: fill(uint64(300+i), 2)})
						}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
		// implicit expansion of either operand
		if ref.IsArith(k) || k == "Dot" || k == "MatMul" {
			for _, p := range [][2][]int{{{2, 2}, {3, 2, 2}}, {{3, 2, 2}, {2, 2}}, {{1, 2, 2}, {3, 2, 2}}, {{3, 2, 2}, {1, 2, 2}}} {
				for q := 0; q < nStates*nStates; q++ {
					c := OneOp{Op: op, State: []int{q % nStates, q / nStates}}
					for i, s := range p {
						v := fill(uint64(200+i), ref.Prod(s))
						domain(op, i, v)
						c.Lv = append(c.Lv, lib.L{S: s, V: v})
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func C08() *eng.Prop {
	all := append(append([]string{}, ref.AllDiff()...), ref.Compare...)
	var noConcat []string // it is quadratic in the leading dimensions
	for _, k := range all {
		if k != "Concat" {
			noConcat = append(noConcat, k)
		}
	}
	few := []string{"Add", "Mul", "Sub", "Scale", "Tanh", "Gt", "Concat", "Add", "Mul"}
	return &eng.Prop{
		ID:     "C08",
		QuickX: 2,
		Rule:   "a case is non-trivial when the history holds a back-propagation and either a reset or an operation on a spent tensor (or, in the enumerated part, when one operation was applied to operands in a given tracking state, back-propagated and used again; or a gradient tensor was made a tracked leaf and differentiated); the gradient of every tensor was compared with the model after every event",
		Parts: []eng.AnyPart{
			eng.Part[OneOp]{Name: "every operation and operand state", Enum: enumOneOp, Check: checkOneOp},
			eng.Part[Hist]{Name: "histories over all operations", Quick: 40000, Thorough: 400000, Gen: genHist(all, 16), Check: checkHist},
			eng.Part[Hist]{Name: "histories over few operations", Quick: 40000, Thorough: 400000, Gen: genHist(few, 22), Check: checkHist},
			eng.Part[Hist]{Name: "histories over huge tensors", Quick: 24, Thorough: 800, Gen: eng.Huge(genHist(noConcat, 8)), Check: checkHist},
			eng.Part[Hist]{Name: "histories over large tensors", Quick: 300, Thorough: 10000, Gen: eng.Large(genHist(all, 10)), Check: checkHist},
			gradUsePart(20000, 200000),
			eng.Part[Hist]{Name: "long histories", Quick: 1500, Thorough: 20000, Gen: genHist(append(few, all...), 60), Check: checkHist},
		},
		Assumptions: []string{
			"a result computed, directly or not, from a spent tensor is untracked and stays so when combined with tracked tensors",
			"left open by the statement and therefore not generated: combining a comparison of a spent tensor, or a gradient tensor, with a tracked tensor",
		},
	}
}
