package props

import (
	"fmt"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// TiedFC is a chain of FC layers whose parameters and input may be one tensor,
// several views of it, or results of earlier tracked operations.
type TiedFC struct {
	V  []lib.L  `json:"v"` // vectors of one length
	D  []Step   `json:"d"` // vectors computed from them
	X  lib.L    `json:"x"` // input, when XV is negative
	XV int      `json:"xv"`
	XD int      `json:"xd"` // the input is this vector as a row (0) or a column (1)
	L  [][2]int `json:"l"`  // weight and bias of each layer
	G  lib.FL   `json:"g"`
}

func genTied(s *eng.Src) TiedFC {
	var c TiedFC
	o := s.Range(1, 4)
	if s.Chance(1, 10) {
		o = s.Range(5, 40)
	}
	for k := s.Range(1, 3); k > 0; k-- {
		c.V = append(c.V, lib.L{S: []int{o}, V: s.NiceN(o), T: s.Chance(4, 5)})
	}
	n := len(c.V)
	for k := s.Intn(3); k > 0; k-- {
		st := Step{Op: ref.Op{K: eng.Pick(s, []string{"Scale", "Add", "Mul", "Sub", "Tanh"})}, In: []int{s.Intn(n)}}
		if ref.IsArith(st.K) {
			st.In = append(st.In, s.Intn(n))
		}
		st.A = eng.Pick(s, []float64{2, -1, 0.5, 1})
		c.D = append(c.D, st)
		n++
	}
	rows := 0
	if s.Chance(1, 3) {
		c.XV, c.XD = s.Intn(n), s.Intn(2)
		rows = []int{1, o}[c.XD]
	} else {
		c.XV = -1
		rows = s.Range(1, 4)
		f := s.Range(1, 4)
		if s.Chance(1, 3) {
			f = o
		}
		if s.Chance(1, 3) {
			rows = o
		}
		c.X = lib.L{S: []int{rows, f}, V: s.NiceN(rows * f), T: s.Bool()}
	}
	for k := s.Range(1, 3); k > 0; k-- {
		w := s.Intn(n)
		b := w
		if s.Bool() {
			b = s.Intn(n)
		}
		c.L = append(c.L, [2]int{w, b})
	}
	c.G = s.NiceN(rows * o)
	return c
}

func checkTied(c TiedFC, x *eng.Ctx) error {
	tp := ref.NewTape()
	var ts []lib.Tensor
	var rs []*ref.T
	var tr []bool
	leaf := func(l lib.L) (lib.Tensor, *ref.T, error) {
		t, err := lib.Build(l.S, l.V, l.T)
		return t, tp.Leaf(l.S, append([]float64{}, l.V...)), err
	}
	for _, l := range c.V {
		t, r, err := leaf(l)
		if err != nil {
			return err
		}
		ts, rs, tr = append(ts, t), append(rs, r), append(tr, l.T)
	}
	for _, st := range c.D {
		in, rin, any := make([]lib.Tensor, len(st.In)), make([]*ref.T, len(st.In)), false
		for i, j := range st.In {
			in[i], rin[i] = ts[j], rs[j]
			any = any || tr[j]
		}
		t, err := lib.Apply(st.Op, in...)
		if err != nil {
			return err
		}
		r := tp.Apply(st.Op, rin...)
		_, v, err := lib.Read(t)
		if err != nil {
			return err
		}
		tp.SetValues(r, v)
		ts, rs, tr = append(ts, t), append(rs, r), append(tr, any)
	}
	n := len(ts)
	var h lib.Tensor
	var rh *ref.T
	var err error
	any := false
	if c.XV < 0 {
		if h, rh, err = leaf(c.X); err != nil {
			return err
		}
		any = c.X.T
	} else {
		if h, err = ts[c.XV].UnSqueeze(c.XD); err != nil {
			return err
		}
		rh = tp.Apply(ref.Op{K: "UnSqueeze", D: c.XD}, rs[c.XV])
		any = tr[c.XV]
	}
	ts, rs, tr = append(ts, h), append(rs, rh), append(tr, any)
	for i, l := range c.L {
		fc := &layers.FC{Weight: ts[l[0]], Bias: ts[l[1]]}
		xs, v, err := lib.Read(h)
		if err != nil {
			return err
		}
		if h, err = forward("FC", fc, h); err != nil {
			return err
		}
		what := fmt.Sprintf("layer %d, whose weight is vector %d and whose bias is vector %d", i, l[0], l[1])
		if err := checkFCVal(h, xs, v, rs[l[0]].V, rs[l[1]].V); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		rh = refFC(tp, rh, rs[l[0]], rs[l[1]])
		if _, v, err = lib.Read(h); err != nil {
			return err
		}
		tp.SetValues(rh, v)
		any = any || tr[l[0]] || tr[l[1]]
		ts, rs, tr = append(ts, h), append(rs, rh), append(tr, any)
	}
	g := lib.L{S: rh.Shape, V: c.G}
	gt, gr, err := leaf(g)
	if err != nil {
		return err
	}
	root, err := h.Mul(gt)
	if err != nil {
		return err
	}
	if err := tensor.BackPropagate(root); err != nil {
		return fmt.Errorf("BackPropagate failed: %v", err)
	}
	a := tp.Back(tp.Apply(ref.Op{K: "Mul"}, rh, gr))
	// the tracked tensors the result was computed from
	from := make([]bool, len(ts))
	for i := n; i < len(ts); i++ {
		from[i] = true
	}
	if c.XV >= 0 {
		from[c.XV] = true
	}
	for _, l := range c.L {
		from[l[0]], from[l[1]] = true, true
	}
	for i := len(c.D) - 1; i >= 0; i-- {
		k := len(c.V) + i
		for _, j := range c.D[i].In {
			from[j] = from[j] || from[k] && tr[k]
		}
	}
	for i, t := range ts {
		what := fmt.Sprintf("gradient of tensor %d (vectors 0 to %d, the input, the outputs of the layers)", i, n-1)
		gx := t.Gradient()
		if !from[i] || !tr[i] {
			if gx != nil {
				return fmt.Errorf("%s exists although the tensor is untracked or was not used", what)
			}
			continue
		}
		if gx == nil {
			return fmt.Errorf("%s is missing", what)
		}
		want, abs, er := ref.Of(a.D, rs[i]), ref.Of(a.Abs, rs[i]), ref.Of(a.Err, rs[i])
		err := lib.CheckNear(what, gx, rs[i].Shape, want, func(p int) float64 { return 1e-9*abs[p] + 16*er[p] + 1e-13 })
		if err != nil {
			return err
		}
	}
	for _, l := range c.L {
		if l[0] == l[1] {
			x.Label("one tensor for weight and bias")
		}
	}
	if c.XV >= 0 {
		x.Label("a parameter as input")
	}
	if any {
		x.NonTrivial()
	}
	return nil
}
