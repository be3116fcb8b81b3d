package props

import (
	"fmt"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// IEv is one event of an immutability history. Events that yield a tensor add
// the next node.
type IEv struct {
	K  string `json:"k"` // new, op, act, loss, fc, sgd, bp, reset, acc, at, grad
	L  lib.L  `json:"l,omitempty"`
	Op ref.Op `json:"op,omitempty"`
	In []int  `json:"in,omitempty"`
	N  int    `json:"n,omitempty"`
	B  bool   `json:"b,omitempty"`
	// Mutation of the slices of this call: when (0 at once, 1 just before the
	// next back-propagation, 2 after the next event, 3 never), what (value
	// written) and how much spare capacity the slices have.
	W int `json:"w,omitempty"`
	V int `json:"v,omitempty"`
	C int `json:"c,omitempty"`
	// Bad: the call may fail (operand -1 is nil) and its result is dropped. It
	// leaves no trace: the history without these events ends the same.
	Bad bool `json:"bad,omitempty"`
}

// IHist is a history and a tracking probe.
type IHist struct {
	Ev []IEv `json:"ev"`
	PE int   `json:"pe"` // probe before and after this event
	PN int   `json:"pn"` // probe this node
}

// iworld executes a history, with (mut) or without mutations of the slices.
type iworld struct {
	mut  bool
	ts   []lib.Tensor
	held []lib.Tensor // gradient tensors seen so far
	hold map[lib.Tensor]bool
	atBP []func()
	next []func()
	err  []string
	sgd  *optimizers.SGD
	lent []*loan
	fcs  map[[2]lib.Tensor]*layers.FC
	acts map[[2]int]activation
	mse  *losses.MSE
	bce  *losses.BCE
	ce   *losses.CE
	acc  *metrics.Accuracy
}

// loan is a slice of the caller that the library has been given. The library
// must leave it alone until its owner changes it.
type loan struct {
	what string
	same func() bool
	back bool
}

// lend records that a slice was passed in and schedules its mutation.
func (w *iworld) lend(what string, same func() bool, when int, f func()) {
	l := &loan{what: what, same: same}
	w.lent = append(w.lent, l)
	w.later(when, func() {
		l.back = true
		f()
	})
}

// untouched fails when the library has written to a slice it was given.
func (w *iworld) untouched() error {
	for _, l := range w.lent {
		if !l.back && !l.same() {
			return fmt.Errorf("aliasing: the library has changed the %s of an earlier or this call", l.what)
		}
	}
	return nil
}

type isnap struct {
	shape []int
	v     []float64
	grad  lib.Tensor
	gs    []int
	gv    []float64
}

// readRaw reads a tensor and scribbles over the shape slice it handed out.
func (w *iworld) readRaw(t lib.Tensor) ([]int, []float64, error) {
	sh := t.Shape()
	shape := append([]int{}, sh...)
	if w.mut {
		full := sh[:cap(sh)]
		for i := range full {
			full[i] = -77
		}
	}
	n, err := lib.Elems(shape)
	if err != nil {
		return nil, nil, err
	}
	v := make([]float64, n)
	ix := make([]int, len(shape))
	for p := range v {
		ref.Unflat(p, shape, ix)
		if v[p], err = t.At(ix...); err != nil {
			return nil, nil, fmt.Errorf("At(%v) of a tensor of shape %v failed: %v", ix, shape, err)
		}
		if w.mut {
			for i := range ix {
				ix[i] = -5
			}
		}
	}
	return shape, v, nil
}

func (w *iworld) snap(t lib.Tensor) (s isnap, err error) {
	if s.shape, s.v, err = w.readRaw(t); err != nil {
		return s, err
	}
	if g := t.Gradient(); g != nil {
		s.grad = g
		if !w.hold[g] {
			w.hold[g] = true
			w.held = append(w.held, g)
		}
		s.gs, s.gv, err = w.readRaw(g)
	}
	return s, err
}

func sameVals(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !lib.Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func (w *iworld) later(when int, f func()) {
	if !w.mut {
		return
	}
	switch when {
	case 0:
		f()
	case 1:
		w.atBP = append(w.atBP, f)
	case 2:
		w.next = append(w.next, f)
	}
}

// ints makes a slice to pass in, with spare capacity.
func ints(d []int, spare int) []int {
	o := make([]int, len(d), len(d)+spare)
	copy(o, d)
	return o
}

func scribble(d []int, how int) {
	full := d[:cap(d)]
	for i := range full {
		switch how {
		case 0:
			full[i] = -9
		case 1:
			full[i]++
		case 2:
			full[i] = 0
		case 3:
			full[i] = 1 << 20
		default:
			if i > 0 {
				full[i], full[0] = full[0], full[i]
			} else {
				full[i] = 1
			}
		}
	}
}

func scribbleRanges(r []tensor.Range, how int) {
	full := r[:cap(r)]
	for i := range full {
		switch how {
		case 0:
			full[i] = tensor.Range{From: -3, To: 900}
		case 1:
			full[i].From++
			full[i].To++
		case 2:
			full[i] = tensor.Range{}
		case 3:
			full[i] = tensor.Range{From: 0, To: 1}
		default:
			full[i].From, full[i].To = full[i].To, full[i].From
		}
	}
}

func (w *iworld) scribbleTensors(l []lib.Tensor, how int) {
	full := l[:cap(l)]
	for i := range full {
		switch how {
		case 0, 2:
			full[i] = nil
		case 1:
			full[i] = w.ts[0]
		default:
			if len(l) > 0 {
				full[i] = full[len(l)-1]
			}
		}
	}
}

func (w *iworld) list(in []int, spare int) []lib.Tensor {
	o := make([]lib.Tensor, len(in), len(in)+spare)
	for i, j := range in {
		o[i] = w.node(j)
	}
	return o
}

func (w *iworld) node(i int) lib.Tensor {
	if i < 0 {
		return nil
	}
	return w.ts[i]
}

const iActs = 5

type activation interface {
	Forward(...tensor.Tensor) (tensor.Tensor, error)
}

// act returns the activation object of this history (one per kind and Dim).
func (w *iworld) act(kind, dim int) (activation, error) {
	k := [2]int{kind, dim}
	if a := w.acts[k]; a != nil {
		return a, nil
	}
	a, err := actOf(kind, dim)
	if err == nil {
		w.acts[k] = a
	}
	return a, err
}

func actOf(kind, dim int) (activation, error) {
	switch kind {
	case 0:
		return activations.NewRelu(), nil
	case 1:
		return activations.NewLeakyRelu(nil), nil
	case 2:
		return activations.NewSigmoid(), nil
	case 3:
		return activations.NewTanh(), nil
	}
	return activations.NewSoftmax(&activations.SoftmaxConfig{Dim: dim})
}

// do runs one event. Calls that fail add no node; the failures of both runs
// are compared.
func (w *iworld) do(e IEv) error {
	run := w.next
	w.next = nil
	if e.K == "bp" {
		run = append(run, w.atBP...)
		w.atBP = nil
	}
	for _, f := range run {
		f()
	}
	add := func(t lib.Tensor, err error) {
		if err != nil {
			w.err = append(w.err, "error")
			return
		}
		w.err = append(w.err, "")
		if !e.Bad {
			w.ts = append(w.ts, t)
		}
	}
	var x lib.Tensor
	if len(e.In) > 0 {
		x = w.node(e.In[0])
	}
	switch e.K {
	case "new":
		t, err := w.ctor(e)
		if err != nil {
			return fmt.Errorf("construction of a tensor of shape %v failed: %v", e.L.S, err)
		}
		add(t, nil)
	case "op":
		switch e.Op.K {
		case "Reshape", "Broadcast":
			d := ints(e.Op.S, e.C)
			was := append([]int{}, d[:cap(d)]...)
			if e.Op.K == "Reshape" {
				add(x.Reshape(d))
			} else {
				add(x.Broadcast(d))
			}
			w.lend("dimension list", func() bool { return ref.EqShape(was, d[:cap(d)]) }, e.W, func() { scribble(d, e.V) })
		case "Slice", "Patch":
			r := make([]tensor.Range, len(e.Op.R), len(e.Op.R)+e.C)
			for i, q := range e.Op.R {
				r[i] = tensor.Range{From: q[0], To: q[1]}
			}
			was := append([]tensor.Range{}, r[:cap(r)]...)
			if e.Op.K == "Slice" {
				add(x.Slice(r))
			} else {
				add(x.Patch(r, w.node(e.In[1])))
			}
			w.lend("index ranges", func() bool {
				for i, q := range r[:cap(r)] {
					if q != was[i] {
						return false
					}
				}
				return true
			}, e.W, func() { scribbleRanges(r, e.V) })
		case "Concat":
			l := w.list(e.In, e.C)
			same := sameTensors(l)
			add(tensor.Concat(l, e.Op.D))
			w.lend("tensor list", same, e.W, func() { w.scribbleTensors(l, e.V) })
		default:
			add(lib.Raw(e.Op, w.list(e.In, 0)...))
		}
	case "act":
		a, err := w.act(e.N, e.Op.D)
		if err != nil {
			return fmt.Errorf("activation: %v", err)
		}
		l := w.list(e.In, e.C)
		same := sameTensors(l)
		add(a.Forward(l...))
		w.lend("tensor list", same, e.W, func() { w.scribbleTensors(l, e.V) })
	case "loss":
		p, t := x, w.node(e.In[1])
		switch e.N {
		case 0:
			if w.mse == nil {
				w.mse = losses.NewMSE()
			}
			add(w.mse.Compute(p, t))
		case 1:
			if w.bce == nil {
				w.bce = losses.NewBCE()
			}
			add(w.bce.Compute(p, t))
		default:
			if w.ce == nil {
				w.ce = losses.NewCE()
			}
			add(w.ce.Compute(p, t))
		}
	case "fc":
		fc, built := &layers.FC{Weight: w.node(e.In[1]), Bias: w.node(e.In[2])}, false
		if e.N > 0 {
			// one layer per pair of parameters, built from initializers that
			// hand out tensors of the history
			k := [2]lib.Tensor{fc.Weight, fc.Bias}
			if old := w.fcs[k]; old != nil {
				fc = old
			} else {
				conf := &layers.FCConfig{Inputs: w.ts[e.In[0]].Shape()[1], Outputs: fc.Weight.NElems(),
					Initializers: map[string]layers.Initializer{"Weight": nodeInit{fc.Weight}, "Bias": nodeInit{fc.Bias}}}
				n, err := layers.NewFC(conf)
				if err != nil {
					return fmt.Errorf("NewFC: %v", err)
				}
				fc = n
				w.fcs[k] = n
				w.later(e.W, func() {
					conf.Inputs, conf.Outputs = -1, 1<<30
					conf.Initializers["Weight"] = nil
					delete(conf.Initializers, "Bias")
				})
			}
			built = true
		}
		ws := fc.Weights()
		if e.N == 2 {
			in := layers.NewInput()
			seed := x
			in.SeedFunc = func() lib.Tensor { return seed }
			y, err := in.Forward()
			if err != nil {
				return fmt.Errorf("Input: %v", err)
			}
			x = y
		}
		l := append([]lib.Tensor{x}, w.list(e.In[3:], 0)...)
		add(fc.Forward(l...))
		w.later(e.W, func() {
			w.scribbleTensors(l, e.V)
			for i := range ws {
				if !built {
					*ws[i].Value = w.ts[0]
				}
			}
			ws[0], ws[1] = layers.Weight{}, layers.Weight{}
		})
	case "sgd":
		if w.sgd == nil {
			w.sgd = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.5})
		}
		t := x
		q := &t
		if e.N == 1 {
			q = nil
		}
		err := w.sgd.Update(q)
		if err != nil && t != x {
			return fmt.Errorf("sgd: a rejected Update has stored a tensor")
		}
		if err == nil && t == x {
			return fmt.Errorf("sgd: Update kept the old tensor object")
		}
		add(t, err)
	case "bp":
		if err := tensor.BackPropagate(x); err != nil && !e.Bad {
			return fmt.Errorf("BackPropagate failed: %v", err)
		}
	case "reset":
		w.ts[e.In[0]].ResetGradContext(e.B)
	case "grad":
		g := w.ts[e.In[0]].Gradient()
		if g == nil {
			add(nil, fmt.Errorf("none"))
		} else {
			add(g, nil)
		}
	case "acc":
		if w.acc == nil {
			w.acc = metrics.NewAccuracy()
		}
		if err := w.acc.Accumulate(x, w.node(e.In[1])); err != nil && !e.Bad {
			return fmt.Errorf("Accumulate failed: %v", err)
		}
	case "at":
		d := ints(e.Op.S, e.C)
		was := append([]int{}, d[:cap(d)]...)
		if _, err := x.At(d...); err != nil {
			w.err = append(w.err, "error")
		} else {
			w.err = append(w.err, "")
		}
		w.lend("index", func() bool { return ref.EqShape(was, d[:cap(d)]) }, e.W, func() { scribble(d, e.V) })
	case "stat":
		t := x
		_, _, _, _, _, _, _ = t.Sum(), t.Max(), t.Min(), t.Avg(), t.Var(), t.Std(), t.Mean()
		_ = t.NElems()
		if _, err := t.Equals(w.node(e.In[1])); err != nil {
			w.err = append(w.err, "error")
		} else {
			w.err = append(w.err, "")
		}
	default:
		panic(eng.HarnessPanic{Msg: "event " + e.K})
	}
	return nil
}

func sameTensors(l []lib.Tensor) func() bool {
	was := append([]lib.Tensor{}, l[:cap(l)]...)
	return func() bool {
		for i, t := range l[:cap(l)] {
			if t != was[i] {
				return false
			}
		}
		return true
	}
}

// ctor builds a leaf through one of the constructors.
func (w *iworld) ctor(e IEv) (lib.Tensor, error) {
	sh, conf := e.L.S, lib.Conf(e.L.T)
	constant := func(f func(d []int) (lib.Tensor, error)) (lib.Tensor, error) {
		d := ints(sh, e.C)
		was := append([]int{}, d[:cap(d)]...)
		t, err := f(d)
		w.lend("dimension list", func() bool { return ref.EqShape(was, d[:cap(d)]) }, e.W, func() { scribble(d, e.V) })
		w.later(e.W, func() { conf.GradTrack = !conf.GradTrack })
		return t, err
	}
	switch e.N {
	case 1:
		return constant(func(d []int) (lib.Tensor, error) { return tensor.Full(d, 1.5, conf) })
	case 2:
		return constant(func(d []int) (lib.Tensor, error) { return tensor.Zeros(d, conf) })
	case 3:
		return constant(func(d []int) (lib.Tensor, error) { return tensor.Ones(d, conf) })
	case 4:
		return constant(func(d []int) (lib.Tensor, error) {
			return initializers.NewFull(&initializers.FullConfig{Value: -0.75}).Init(d)
		})
	case 5:
		return tensor.Eye(sh[0], conf)
	}
	scr := func(v []float64) {
		v = v[:cap(v)]
		for i := range v {
			v[i] = 1e9 + float64(e.V)
		}
	}
	v := append([]float64{}, e.L.V...)
	intact := func() bool { return sameVals(v, e.L.V) } // the rows share this array
	switch len(sh) {
	case 0:
		return tensor.TensorOf(v[0], conf)
	case 1:
		t, err := tensor.TensorOf(v, conf)
		w.lend("data", intact, e.W, func() { scr(v) })
		return t, err
	case 2:
		d := nestRows(sh, v)
		t, err := tensor.TensorOf(d, conf)
		w.lend("data", intact, e.W, func() {
			for i := range d {
				scr(d[i])
				d[i] = []float64{-1}
			}
		})
		return t, err
	case 3:
		n := sh[1] * sh[2]
		d := make([][][]float64, sh[0])
		for i := range d {
			d[i] = nestRows(sh[1:], v[i*n:(i+1)*n])
		}
		t, err := tensor.TensorOf(d, conf)
		w.lend("data", intact, e.W, func() {
			for i := range d {
				for j := range d[i] {
					scr(d[i][j])
					d[i][j] = nil
				}
				d[i] = nil
			}
		})
		return t, err
	case 4:
		n, m := sh[1]*sh[2]*sh[3], sh[2]*sh[3]
		d := make([][][][]float64, sh[0])
		for i := range d {
			d[i] = make([][][]float64, sh[1])
			for j := range d[i] {
				o := i*n + j*m
				d[i][j] = nestRows(sh[2:], v[o:o+m])
			}
		}
		t, err := tensor.TensorOf(d, conf)
		w.lend("data", intact, e.W, func() {
			for i := range d {
				for j := range d[i] {
					for k := range d[i][j] {
						scr(d[i][j][k])
						d[i][j][k] = nil
					}
					d[i][j] = nil
				}
				d[i] = nil
			}
		})
		return t, err
	}
	d := ints(sh, e.C)
	t, err := tensor.TensorOf(v, lib.Conf(false))
	if err != nil {
		return nil, err
	}
	scr(v)
	was := append([]int{}, d[:cap(d)]...)
	if t, err = t.Reshape(d); err != nil {
		return nil, err
	}
	t.ResetGradContext(e.L.T)
	w.lend("dimension list", func() bool { return ref.EqShape(was, d[:cap(d)]) }, e.W, func() { scribble(d, e.V) })
	return t, nil
}

// nestRows keeps the rows in one backing array.
func nestRows(sh []int, v []float64) [][]float64 {
	o := make([][]float64, sh[0])
	for i := range o {
		o[i] = v[i*sh[1] : (i+1)*sh[1] : (i+1)*sh[1]]
	}
	return o
}

func newIWorld(mut bool) *iworld {
	return &iworld{mut: mut, hold: map[lib.Tensor]bool{}, fcs: map[[2]lib.Tensor]*layers.FC{}, acts: map[[2]int]activation{}}
}

// nodeInit hands out a tensor that exists.
type nodeInit struct{ t lib.Tensor }

func (f nodeInit) Init([]int) (lib.Tensor, error) { return f.t, nil }

// statusAt runs the first k events in a fresh world and tells whether node n
// is then tracked (a result computed from it passes a gradient on).
func statusAt(ev []IEv, k, n int) (bool, error) {
	w := newIWorld(false)
	for i := 0; i < k; i++ {
		if err := w.do(ev[i]); err != nil {
			return false, err
		}
	}
	t := w.ts[n]
	before := t.Gradient()
	y := t.Scale(2)
	if err := tensor.BackPropagate(y); err != nil {
		return false, fmt.Errorf("BackPropagate failed: %v", err)
	}
	g := t.Gradient()
	return g != nil && g != before, nil
}

func checkImm(c IHist, x *eng.Ctx) error {
	a, b := newIWorld(false), newIWorld(true)
	var z *iworld // the history without the calls that may fail
	for _, e := range c.Ev {
		if e.Bad {
			z = newIWorld(false)
			x.Label("bad calls")
			break
		}
	}
	var last []isnap
	var heldV [][]float64
	var heldS [][]int
	bp := false
	nodesBefore := []int{}
	for k, e := range c.Ev {
		if e.Bad {
			// a call on node -1 and the like cannot be told apart by its error
			x.Label("bad %s", e.K)
		}
		nodesBefore = append(nodesBefore, len(b.ts))
		what := fmt.Sprintf("event %d (%s %s %v)", k, e.K, e.Op.K, e.In)
		if e.K == "bp" {
			bp = true
		}
		if err := a.do(e); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := b.do(e); err != nil {
			return fmt.Errorf("%s fails after the caller's slices were changed, but not without: %v", what, err)
		}
		if len(a.ts) != len(b.ts) || len(a.err) != len(b.err) || len(a.err) > 0 && a.err[len(a.err)-1] != b.err[len(b.err)-1] {
			return fmt.Errorf("aliasing: %s is accepted in only one of the runs with and without changes to the caller's slices", what)
		}
		if z != nil && !e.Bad {
			if err := z.do(e); err != nil {
				return fmt.Errorf("%s, without the earlier calls that fail or whose result is dropped: %v", what, err)
			}
			if len(z.ts) != len(a.ts) {
				return fmt.Errorf("%s: accepted depending on whether calls that fail, or whose result is dropped, went before", what)
			}
			for i, t := range z.ts {
				sz, err := z.snap(t)
				if err != nil {
					return fmt.Errorf("%s: reading node %d: %v", what, i, err)
				}
				sa, err := a.snap(a.ts[i])
				if err != nil {
					return fmt.Errorf("%s: reading node %d: %v", what, i, err)
				}
				if !ref.EqShape(sz.shape, sa.shape) || !sameVals(sz.v, sa.v) {
					return fmt.Errorf("immutability: after %s node %d is %v %v, but %v %v without the earlier calls that fail or whose result is dropped", what, i, sa.shape, sa.v, sz.shape, sz.v)
				}
				if (sz.grad == nil) != (sa.grad == nil) || !ref.EqShape(sz.gs, sa.gs) || !sameVals(sz.gv, sa.gv) {
					return fmt.Errorf("immutability: after %s node %d has gradient %v %v, but %v %v without the earlier calls that fail or whose result is dropped", what, i, sa.gs, sa.gv, sz.gs, sz.gv)
				}
			}
		}
		for _, w := range []*iworld{a, b} {
			if err := w.untouched(); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
		for i, t := range b.ts {
			s, err := b.snap(t)
			if err != nil {
				return fmt.Errorf("%s: reading node %d: %v", what, i, err)
			}
			sa, err := a.snap(a.ts[i])
			if err != nil {
				return fmt.Errorf("%s: reading node %d: %v", what, i, err)
			}
			// history independent of the caller's slices
			if !ref.EqShape(s.shape, sa.shape) {
				return fmt.Errorf("aliasing: after %s node %d has shape %v, but %v when the caller's slices are left alone", what, i, s.shape, sa.shape)
			}
			if !sameVals(s.v, sa.v) {
				return fmt.Errorf("aliasing: after %s node %d has values %v, but %v when the caller's slices are left alone", what, i, s.v, sa.v)
			}
			if (s.grad == nil) != (sa.grad == nil) || !ref.EqShape(s.gs, sa.gs) || !sameVals(s.gv, sa.gv) {
				return fmt.Errorf("aliasing: after %s node %d has gradient %v %v, but %v %v when the caller's slices are left alone", what, i, s.gs, s.gv, sa.gs, sa.gv)
			}
			// nothing but what the event may change has changed, in either run
			for run, cur := range []isnap{s, sa} {
				if i >= len(last)/2 {
					break
				}
				l := last[2*i+run]
				if !ref.EqShape(l.shape, cur.shape) || !sameVals(l.v, cur.v) {
					return fmt.Errorf("immutability: %s changed node %d from %v %v to %v %v", what, i, l.shape, l.v, cur.shape, cur.v)
				}
				may := e.K == "bp" && !e.Bad || e.K == "reset" && b.ts[e.In[0]] == b.ts[i]
				if !may && (l.grad == nil) != (cur.grad == nil) {
					return fmt.Errorf("immutability: %s set or removed the gradient of node %d", what, i)
				}
				if !may && (!ref.EqShape(l.gs, cur.gs) || !sameVals(l.gv, cur.gv)) {
					return fmt.Errorf("immutability: %s changed the gradient of node %d from %v to %v", what, i, l.gv, cur.gv)
				}
				if e.K == "bp" && l.grad != nil && cur.grad == nil {
					return fmt.Errorf("immutability: %s removed the gradient of node %d", what, i)
				}
			}
			if 2*i >= len(last) {
				last = append(last, s, sa)
			} else {
				last[2*i], last[2*i+1] = s, sa
			}
		}
		// gradient tensors are tensors, too
		for i, g := range b.held {
			sh, v, err := b.readRaw(g)
			if err != nil {
				return fmt.Errorf("%s: reading a gradient tensor: %v", what, err)
			}
			if i < len(heldV) {
				if !ref.EqShape(sh, heldS[i]) || !sameVals(v, heldV[i]) {
					return fmt.Errorf("immutability: %s changed a gradient tensor from %v %v to %v %v", what, heldS[i], heldV[i], sh, v)
				}
			} else {
				heldS, heldV = append(heldS, sh), append(heldV, v)
			}
		}
		if e.K == "op" || e.K == "act" || e.K == "loss" || e.K == "fc" {
			x.Label("%s %s", e.K, e.Op.K)
		}
	}
	// tracking: only back-propagations and resets may change it
	if c.PE < len(c.Ev) && nodesBefore[c.PE] > 0 {
		n := c.PN % nodesBefore[c.PE]
		e := c.Ev[c.PE]
		s0, err := statusAt(c.Ev, c.PE, n)
		if err != nil {
			return err
		}
		s1, err := statusAt(c.Ev, c.PE+1, n)
		if err != nil {
			return err
		}
		switch {
		case e.K == "reset":
			// only the target's own tracking; a result computed from it is
			// judged by C08
			if b.ts[e.In[0]] == b.ts[n] && s1 != e.B {
				return fmt.Errorf("tracking: after ResetGradContext(%v) node %d is %s", e.B, n, has(s1))
			}
		case e.K == "bp":
			if s1 && !s0 {
				return fmt.Errorf("tracking: a back-propagation turned on tracking of node %d", n)
			}
		case s0 != s1:
			return fmt.Errorf("tracking: event %d (%s %s) changed the tracking of node %d from %v to %v", c.PE, e.K, e.Op.K, n, s0, s1)
		}
		x.Label("probe")
	}
	if bp && len(c.Ev) >= 3 {
		x.NonTrivial()
	}
	return nil
}

// badCall draws a call that is likely to be rejected.
func badCall(s *eng.Src, nodes []*ref.T, kinds []string, o progOpts, pick func() int) IEv {
	e := IEv{Bad: true}
	any := func() int {
		if s.Chance(1, 6) {
			return -1
		}
		return pick()
	}
	size := func(i int) int {
		if i < 0 {
			return 1
		}
		return ref.Prod(nodes[i].Shape)
	}
	switch s.Weighted(8, 3, 3, 2, 2, 1, 1, 1, 1) {
	case 0:
		e.K = "op"
		for tries := 0; tries < 10; tries++ {
			op, in, ok := drawOp(s, eng.Pick(s, kinds), nodes, pick, o)
			if !ok {
				continue
			}
			in = append([]int{}, in...)
			switch s.Intn(4) {
			case 0: // other operands
				for i := range in {
					if i > 0 && s.Bool() {
						in[i] = any()
					}
				}
				if op.K == "Concat" && s.Chance(1, 3) {
					in = in[:s.Intn(len(in)+1)]
				}
			case 1: // another receiver
				in[0] = pick()
			default:
				op.D += s.Range(0, 8) - 4
				op.S = append([]int{}, op.S...)
				op.R = append([][2]int{}, op.R...)
				switch {
				case len(op.S) > 0 && s.Chance(3, 4):
					op.S[s.Intn(len(op.S))] += s.Range(-2, 1)
				case s.Bool() && len(op.S) < o.maxRank:
					op.S = append(op.S, s.Range(-1, 2))
				}
				if len(op.R) > 0 {
					j := s.Intn(len(op.R))
					op.R[j] = [2]int{op.R[j][0] + s.Range(-2, 2), op.R[j][1] + s.Range(-1, 2)}
				}
			}
			shapes := make([][]int, 0, len(in))
			bad := false
			for _, j := range in {
				if j < 0 {
					bad = true
					continue
				}
				shapes = append(shapes, nodes[j].Shape)
			}
			if !bad && len(in) > 0 {
				if sh, ok := ref.OutShape(op, shapes...); ok && ref.Prod(sh) > 4*o.maxElems {
					continue
				} else if ok && op.K == "MatMul" && ref.Prod(sh)*shapes[0][len(shapes[0])-1] > 16*o.maxElems {
					continue
				}
			}
			e.Op, e.In = op, in
			return e
		}
		e.K, e.In = "bp", []int{-1}
	case 1:
		e.K, e.N = "act", s.Intn(iActs)
		if e.N == 4 {
			e.Op.D = s.Intn(4)
		}
		for i, n := 0, s.Range(0, 3); i < n; i++ {
			e.In = append(e.In, any())
		}
	case 2:
		e.K, e.N, e.In = "loss", s.Intn(3), []int{any(), any()}
	case 3:
		e.K, e.In = "fc", []int{any(), any(), any()}
		for s.Chance(1, 5) {
			e.In = append(e.In, any())
		}
		if n := size(e.In[0]) * size(e.In[1]); n > 4*o.maxElems || size(e.In[0])*size(e.In[2]) > 4*o.maxElems {
			e.In = []int{-1, -1, -1}
		}
	case 4:
		e.K, e.N, e.In = "sgd", s.Weighted(4, 1), []int{any()}
	case 5:
		e.K, e.In = "acc", []int{any(), any()}
	case 6:
		e.K, e.In = "stat", []int{pick(), any()}
	case 7:
		e.K, e.In = "at", []int{pick()}
		for _, d := range nodes[e.In[0]].Shape {
			e.Op.S = append(e.Op.S, s.Range(-1, d))
		}
		if s.Chance(1, 3) {
			e.Op.S = append(e.Op.S, 0)
		}
	default:
		e.K, e.In = "bp", []int{-1}
	}
	return e
}

// genImm draws a history over the public API; it needs shapes only.
func genImm(kinds []string, maxEv int) func(s *eng.Src) IHist {
	return func(s *eng.Src) IHist {
		var c IHist
		var nodes []*ref.T
		o := progOpts{maxElems: 24, maxRank: 6, explicitB: true}
		lim := 12
		if s.Big {
			lim, o.maxElems = 3000, 3000
			if s.Floor > 0 {
				lim, o.maxElems = 140000, 140000
			}
		}
		base := s.Shape(0, 4, lim)
		s.Deep(&base, lim, &o.maxRank)
		put := func(e IEv, sh []int) {
			e.W = s.Weighted(6, 2, 2, 1)
			e.V = s.Intn(5)
			e.C = s.Weighted(3, 1, 1)
			c.Ev = append(c.Ev, e)
			if sh != nil {
				nodes = append(nodes, &ref.T{Shape: sh})
			}
		}
		newLeaf := func() {
			sh := append([]int{}, base...)
			switch s.Weighted(4, 2, 1) {
			case 1:
				sh = s.Sub(base)
			case 2:
				sh = s.Shape(0, 6, lim)
			}
			e := IEv{K: "new", L: lib.L{S: sh, T: s.Chance(4, 5)}, N: s.Weighted(6, 1, 1, 1, 1, 1)}
			if e.N == 5 {
				n := s.Range(1, 4)
				if s.Big {
					n = s.Size(1, 55)
				}
				e.L.S = []int{n, n}
			}
			e.L.V = s.NiceN(ref.Prod(e.L.S))
			put(e, e.L.S)
		}
		newLeaf()
		n := s.Range(2, maxEv)
		graded := map[int]bool{}
		type madeOp struct {
			n int
			e IEv
		}
		var ops []madeOp
		for len(c.Ev) < n {
			m := len(nodes)
			pick := func() int { return m - 1 - s.Intn(m) }
			find := func(f func(t *ref.T) bool) int {
				st := s.Intn(m)
				for i := 0; i < m; i++ {
					if j := (st + i) % m; f(nodes[j]) {
						return j
					}
				}
				return -1
			}
			if s.Chance(1, 10) {
				put(badCall(s, nodes, kinds, o, pick), nil)
				continue
			}
			switch s.Weighted(12, 4, 2, 2, 2, 2, 1, 1, 1) {
			case 0:
				st := s.Intn(len(kinds))
				done := false
				if len(ops) > 0 && s.Chance(1, 5) {
					// an earlier operation again, or undone
					q := len(ops) - 1 - s.Intn(len(ops))
					e := ops[q].e
					in := append([]int{}, e.In...)
					op := e.Op
					if s.Bool() {
						args := make([]*ref.T, len(in))
						for i, j := range in {
							args[i] = nodes[j]
						}
						op, in = inverseOf(s, op, args, nodes[ops[q].n]), []int{ops[q].n}
					}
					shapes := make([][]int, len(in))
					for i, j := range in {
						shapes[i] = nodes[j].Shape
					}
					if sh, ok := ref.OutShape(op, shapes...); ok {
						put(IEv{K: "op", Op: op, In: in}, append([]int{}, sh...))
						continue
					}
				}
				for tries := 0; tries < 10 && !done; tries++ {
					op, in, ok := drawOp(s, kinds[(st+tries*7)%len(kinds)], nodes, pick, o)
					if !ok {
						continue
					}
					shapes := make([][]int, len(in))
					for i, j := range in {
						shapes[i] = nodes[j].Shape
					}
					// sometimes an invalid call
					if s.Chance(1, 20) {
						op.D += s.Range(0, 8) - 4
						if len(op.S) > 0 {
							op.S[0]--
						}
					}
					sh, ok := ref.OutShape(op, shapes...)
					if !ok {
						sh = nil
					} else if sh == nil {
						sh = []int{}
					}
					if ok && ref.Prod(sh) > 4*o.maxElems {
						continue
					}
					put(IEv{K: "op", Op: op, In: in}, sh)
					if ok {
						ops = append(ops, madeOp{len(nodes) - 1, c.Ev[len(c.Ev)-1]})
					}
					done = true
				}
				if !done {
					newLeaf()
				}
			case 1:
				i := pick()
				if s.Bool() {
					i = m - 1
				}
				put(IEv{K: "bp", In: []int{i}}, nil)
				graded[i] = true
			case 2:
				newLeaf()
			case 3:
				i := find(func(t *ref.T) bool { return len(t.Shape) > 0 })
				a := s.Intn(iActs)
				if a == 4 && i < 0 {
					a = 3
				}
				e := IEv{K: "act", N: a}
				if i < 0 || a < 4 {
					i = pick()
				} else {
					e.Op.D = s.Intn(len(nodes[i].Shape))
				}
				e.In = []int{i}
				put(e, append([]int{}, nodes[i].Shape...))
			case 4:
				i := find(func(t *ref.T) bool { return len(t.Shape) == 1 || len(t.Shape) == 2 })
				if i < 0 {
					newLeaf()
					continue
				}
				j := find(func(t *ref.T) bool { return ref.EqShape(t.Shape, nodes[i].Shape) })
				if len(nodes[i].Shape) == 2 {
					put(IEv{K: "loss", N: 2, In: []int{i, j}}, []int{})
				} else if s.Chance(1, 4) {
					put(IEv{K: "acc", In: []int{i, j}}, nil)
				} else {
					put(IEv{K: "loss", N: s.Intn(2), In: []int{i, j}}, []int{})
				}
			case 5:
				i := find(func(t *ref.T) bool { return len(t.Shape) == 2 })
				w := find(func(t *ref.T) bool { return len(t.Shape) == 1 })
				if i < 0 || w < 0 || ref.Prod(nodes[i].Shape)*nodes[w].Shape[0] > 8*o.maxElems {
					newLeaf()
					continue
				}
				b := find(func(t *ref.T) bool { return ref.EqShape(t.Shape, nodes[w].Shape) })
				put(IEv{K: "fc", N: s.Weighted(2, 2, 1), In: []int{i, w, b}}, []int{nodes[i].Shape[0], nodes[w].Shape[0]})
			case 6:
				put(IEv{K: "reset", In: []int{pick()}, B: s.Chance(2, 3)}, nil)
			case 7:
				i, j := pick(), pick()
				put(IEv{K: "stat", In: []int{i, j}}, nil)
			default:
				// the node of a root certainly has a gradient only when it was
				// tracked: whether the call succeeds is found out by a dry run
				i := pick()
				if len(graded) == 0 {
					newLeaf()
					continue
				}
				k := "sgd"
				if s.Chance(1, 3) {
					k = "grad"
				}
				w := newIWorld(false)
				ok := eng.Guard(func() error {
					for _, e := range c.Ev {
						if err := w.do(e); err != nil {
							return err
						}
					}
					return nil
				}) == nil
				if !ok || len(w.ts) != len(nodes) || w.ts[i].Gradient() == nil {
					newLeaf()
					continue
				}
				put(IEv{K: k, In: []int{i}}, append([]int{}, nodes[i].Shape...))
			}
		}
		c.PE = s.Intn(len(c.Ev))
		c.PN = s.Intn(64)
		return c
	}
}

// IOne is one operation on leaves, mutated between the forward call and the
// back-propagation.
type IOne struct {
	Op ref.Op  `json:"op"`
	In [][]int `json:"in"`
	V  int     `json:"v"`
	C  int     `json:"c"`
	W  int     `json:"w"`
}

func (c IOne) hist() IHist {
	var h IHist
	in := []int{}
	for i, sh := range c.In {
		v := fill(uint64(50+i), ref.Prod(sh))
		domain(c.Op, i, v)
		h.Ev = append(h.Ev, IEv{K: "new", L: lib.L{S: sh, V: v, T: true}, W: c.W, V: c.V, C: c.C})
		in = append(in, i)
	}
	n := len(in)
	h.Ev = append(h.Ev,
		IEv{K: "op", Op: c.Op, In: in, W: c.W, V: c.V, C: c.C},
		IEv{K: "op", Op: ref.Op{K: "Tanh"}, In: []int{n}},
		IEv{K: "bp", In: []int{n + 1}},
		IEv{K: "bp", In: []int{n + 1}},
		IEv{K: "sgd", In: []int{0}})
	if ref.IsCompare(c.Op.K) {
		h.Ev = h.Ev[:len(h.Ev)-1]
	}
	h.PE, h.PN = n, 0
	return h
}

// IRand checks the slices of the random constructors.
type IRand struct {
	K int   `json:"k"`
	S []int `json:"s"`
	V int   `json:"v"`
	C int   `json:"c"`
}

const iRands = 8

func checkIRand(c IRand, x *eng.Ctx) error {
	d := ints(c.S, c.C)
	var in layers.Initializer
	var t lib.Tensor
	var err error
	switch c.K {
	case 0:
		t, err = tensor.RandU(d, -1, 1, lib.Conf(true))
	case 1:
		t, err = tensor.RandN(d, 0, 1, lib.Conf(true))
	case 2:
		in, err = initializers.NewUniform(nil)
	case 3:
		in, err = initializers.NewNormal(nil)
	case 4:
		in, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 3})
	case 5:
		in, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: 3})
	case 6:
		in, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 3, FanOut: 2})
	default:
		in, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 3, FanOut: 2})
	}
	if err == nil && in != nil {
		t, err = in.Init(d)
	}
	if err != nil {
		return fmt.Errorf("random constructor rejected shape %v: %v", c.S, err)
	}
	w := newIWorld(true)
	if !ref.EqShape(d, c.S) {
		return fmt.Errorf("aliasing: a random constructor changed the dimension list %v to %v", c.S, d)
	}
	scribble(d, c.V)
	if err := lib.CheckShape("random tensor after its dimension list was changed", t, c.S); err != nil {
		return err
	}
	s0, err := w.snap(t)
	if err != nil {
		return err
	}
	y := t.Sin()
	s1, err := w.snap(t)
	if err != nil {
		return err
	}
	if !ref.EqShape(s0.shape, s1.shape) || !sameVals(s0.v, s1.v) {
		return fmt.Errorf("immutability: a random tensor changed from %v to %v", s0.v, s1.v)
	}
	if err := tensor.BackPropagate(y); err != nil {
		return fmt.Errorf("BackPropagate failed: %v", err)
	}
	g := t.Gradient()
	if g == nil {
		return fmt.Errorf("no gradient")
	}
	if err := lib.CheckShape("gradient of a random tensor", g, c.S); err != nil {
		return err
	}
	x.NonTrivial()
	return nil
}

func C10() *eng.Prop {
	kinds := progOps(progOpts{compare: true})
	kinds = append(kinds, "Reshape", "Reshape", "Broadcast", "Broadcast", "Slice", "Slice", "Patch", "Patch", "Concat", "Concat", "Gt", "Le", "Eq", "Ne", "Ge", "Lt")
	var noConcat []string // it is quadratic in the leading dimensions
	for _, k := range kinds {
		if k != "Concat" {
			noConcat = append(noConcat, k)
		}
	}
	args := []string{"Reshape", "Broadcast", "Slice", "Patch", "Concat"}
	all := append(ref.AllDiff(), ref.Compare...)
	return &eng.Prop{
		ID:     "C10",
		QuickX: 4,
		Rule:   "a case is non-trivial when it runs a whole history with at least one back-propagation twice, once with every caller-owned slice overwritten, and all shapes, values and gradients of all tensors were compared after every event",
		Parts: []eng.AnyPart{
			eng.Part[IOne]{Name: "every operation, slices changed before the back-propagation", Check: func(c IOne, x *eng.Ctx) error { return checkImm(c.hist(), x) },
				Enum: func(th bool, yield func(IOne) bool) {
					maxRank, maxDim := 3, 2
					k := 0
					enumOps(all, maxRank, maxDim, true, func(op ref.Op, in [][]int) bool {
						takes := false
						for _, a := range args {
							takes = takes || a == op.K
						}
						n := 1
						if takes {
							n = 5
						}
						for v := 0; v < n; v++ {
							k++
							if !th && !takes && k%3 != 0 || !th && takes && k%4 != 0 {
								continue
							}
							if !yield(IOne{op, in, v, k % 3, k % 2}) {
								return false
							}
						}
						return true
					})
				}},
			eng.Part[IRand]{Name: "random constructors", Quick: 1500, Thorough: 20000, Gen: func(s *eng.Src) IRand {
				return IRand{s.Intn(iRands), s.Shape(0, 6, 24), s.Intn(5), s.Intn(3)}
			}, Check: checkIRand},
			eng.Part[IHist]{Name: "random history", Quick: 80000, Thorough: 800000, Gen: genImm(kinds, 14), Check: checkImm},
			eng.Part[IHist]{Name: "history of the operations with slice arguments", Quick: 50000, Thorough: 400000, Gen: genImm(args, 9), Check: checkImm},
			eng.Part[IHist]{Name: "history over huge tensors", Quick: 12, Thorough: 800, Gen: eng.Huge(genImm(noConcat, 6)), Check: checkImm},
			eng.Part[IHist]{Name: "history over large tensors", Quick: 300, Thorough: 10000, Gen: eng.Large(genImm(kinds, 10)), Check: checkImm},
			eng.Part[IHist]{Name: "long random history", Quick: 6000, Thorough: 60000, Gen: genImm(kinds, 40), Check: checkImm},
		},
		Assumptions: []string{
			"tracking is observed by replaying the history up to a drawn event and back-propagating through the probed tensor, before and after that event",
			"besides Shape, the tensor list of a variadic Forward, the slice returned by FC.Weights and the fields of a tensor.Config are overwritten as well",
		},
	}
}
