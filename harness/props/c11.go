package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// TLayer is one layer of a model: an FC (new, or an earlier one used again)
// and an activation, optionally with a residual connection.
type TLayer struct {
	Out int    `json:"out"`
	Re  int    `json:"re,omitempty"` // 1+index of an earlier layer whose FC is used again
	A   Act    `json:"a"`
	Res bool   `json:"res,omitempty"`
	Def bool   `json:"def,omitempty"` // default initializers
	W   lib.FL `json:"w,omitempty"`
	B   lib.FL `json:"b,omitempty"`
}

// TBatch is one mini-batch. Its tensors are made once and used in all steps
// that refer to it.
type TBatch struct {
	N     int    `json:"n"`
	X     lib.FL `json:"x"`
	Y     lib.FL `json:"y"`
	Track bool   `json:"track,omitempty"` // the input is tracked (and made anew)
}

// TStep is one step of a training loop with everything a user may do besides.
type TStep struct {
	D      []int  `json:"d"`                // mini-batches whose losses are added (usually one)
	Frozen uint32 `json:"frozen,omitempty"` // weights reset to untracked
	Omit   uint32 `json:"omit,omitempty"`   // weights whose reset after this step is omitted
	Eval   int    `json:"eval,omitempty"`   // extra forward passes: 1 before, 2 between, 4 after the update, 8 after the reset
	NoBP   bool   `json:"nobp,omitempty"`   // back-propagation omitted
	NoUp   bool   `json:"noup,omitempty"`   // update omitted
	Late   bool   `json:"late,omitempty"`   // reset right before the next step instead of right after this one
	Twice  bool   `json:"twice,omitempty"`  // reset called twice
	Fresh  bool   `json:"fresh,omitempty"`  // new optimizer, activations and loss objects, pointers fetched again
	Rev    bool   `json:"rev,omitempty"`    // weights updated in reverse order
}

type TrainCase struct {
	In    int      `json:"in"`
	L     []TLayer `json:"l"`
	Loss  string   `json:"loss"`
	How   int      `json:"how"`             // how predictions become rank 1
	Share string   `json:"share,omitempty"` // one initializer object for the parameters of all layers
	LR    lib.F1   `json:"lr"`
	Nil   bool     `json:"nil,omitempty"`
	Data  []TBatch `json:"data"`
	Steps []TStep  `json:"steps"`
}

type trainSize struct {
	batch, width, layers, steps int
	long                        bool // many steps with the same objects
}

func genTrain(z trainSize, plain bool) func(s *eng.Src) TrainCase {
	return func(s *eng.Src) TrainCase {
		var c TrainCase
		dim := func(m int) int {
			if s.Chance(1, 4) {
				return s.Size(1, m)
			}
			return s.Range(1, min(m, 4))
		}
		zz := z
		if s.Floor > 0 {
			zz.batch, zz.width, zz.steps = 140000, 2, 2
		} else if s.Big { // one long dimension
			switch s.Intn(3) {
			case 0:
				zz.batch = 600
			case 1:
				zz.width = 300
			default:
				zz.steps = 600
			}
		}
		z := zz
		c.In = dim(z.width)
		c.Loss = eng.Pick(s, []string{"mse", "bce", "ce"})
		nl := s.Range(1, z.layers)
		w := c.In
		for i := 0; i < nl; i++ {
			l := TLayer{Out: dim(z.width)}
			if i > 0 && s.Chance(1, 5) {
				r := s.Intn(i)
				if c.L[r].Re == 0 {
					l.Re = r + 1
					l.Out = c.L[r].Out
				}
			}
			if s.Chance(1, 6) {
				l.Out = w
				if l.Re > 0 && c.L[l.Re-1].Out != w {
					l.Re = 0
				}
				l.Res = true
			}
			kinds := []string{"none", "relu", "leaky", "sigmoid", "tanh", "softmax"}
			if i == nl-1 && c.Loss != "mse" {
				kinds = []string{"sigmoid", "softmax"}
				l.Res = false
			}
			l.A = Act{K: eng.Pick(s, kinds)}
			switch l.A.K {
			case "softmax":
				l.A.D = 1
				if s.Chance(1, 5) {
					l.A.D = 0
					l.A.Nil = s.Bool()
				}
			case "leaky":
				l.A.Nil = s.Bool()
				l.A.M = eng.Pick(s, []float64{0.1, 0.5, 0.01, -0.2, 1, 0})
			}
			if l.Re == 0 {
				l.Def = s.Chance(1, 5)
				if !l.Def {
					l.W, l.B = s.NiceN(l.Out), s.NiceN(l.Out)
					for j := range l.W {
						l.W[j] /= 2
						l.B[j] /= 2
					}
				}
			}
			c.L = append(c.L, l)
			w = l.Out
		}
		c.How = s.Intn(4)
		if s.Chance(1, 10) {
			c.Share = eng.Pick(s, []string{"full", "full", "uniform", "normal"})
		}
		c.Nil = s.Chance(1, 8)
		c.LR = lib.F1(eng.Pick(s, []float64{0.1, 0.01, 0.05, 0.3, 1, 0.001, -0.05, 0, 0.5}))
		if s.Chance(1, 4) {
			c.LR = lib.F1(s.Unit())
		}
		if z.long && s.Chance(3, 4) {
			c.LR = lib.F1(eng.Pick(s, []float64{0.01, 1e-3, 0.02, 1e-4}))
		}
		nd := s.Range(1, 3)
		for i := 0; i < nd; i++ {
			d := TBatch{N: dim(z.batch), Track: s.Chance(1, 6)}
			d.X = s.NiceN(d.N * c.In)
			m := d.N * w
			if c.Loss == "mse" {
				d.Y = s.NiceN(m)
			} else {
				d.Y = s.Floats(m, func(s *eng.Src) float64 {
					if s.Chance(1, 3) {
						return s.Unit()
					}
					return float64(s.Intn(2))
				})
			}
			c.Data = append(c.Data, d)
		}
		ns := s.Size(1, z.steps)
		rare := func(n int) bool { return s.Chance(1, n) }
		if z.long {
			if s.Chance(7, 8) {
				ns = s.Range(z.steps/4, z.steps)
			}
			rare = func(n int) bool { return s.Chance(1, 40*n) }
		}
		for i := 0; i < ns; i++ {
			t := TStep{D: []int{s.Intn(nd)}}
			if !plain {
				if rare(8) {
					t.D = append(t.D, s.Intn(nd))
				}
				if rare(8) {
					t.Frozen = uint32(s.Range(0, 255))
				}
				if rare(8) {
					t.Omit = uint32(s.Range(0, 255))
					if s.Bool() {
						t.Omit = 1 << 31 / 2
						t.Omit = ^uint32(0)
					}
				}
				if rare(4) {
					t.Eval = s.Intn(16)
				}
				t.NoBP = rare(14)
				t.NoUp = rare(14)
				t.Late = rare(3)
				t.Twice = rare(8)
				t.Fresh = rare(4)
				t.Rev = rare(4)
			}
			c.Steps = append(c.Steps, t)
		}
		return c
	}
}

// trainer runs a TrainCase.
type trainer struct {
	c    TrainCase
	fcs  []*layers.FC // one per layer, repeated when used again
	acts []forwarder
	obj  losser           // one loss object for many steps
	ws   []*tensor.Tensor // all trainable weights
	xs   []lib.Tensor
	ys   []lib.Tensor
	sgd  *optimizers.SGD
	lr   float64
	err  error
}

func (r *trainer) fresh() error {
	r.acts = nil
	r.obj = lossOf(r.c.Loss)
	for _, l := range r.c.L {
		if l.A.K == "none" {
			r.acts = append(r.acts, nil)
			continue
		}
		a, err := l.A.make()
		if err != nil {
			return err
		}
		r.acts = append(r.acts, a)
	}
	r.sgd, r.lr = SGDCase{LR: r.c.LR, Nil: r.c.Nil}.sgd()
	r.ws = nil
	for i, l := range r.c.L {
		if l.Re > 0 {
			continue
		}
		spoil(r.fcs[i].Weights()) // the slice is the caller's
		ws := r.fcs[i].Weights()
		if len(ws) != 2 {
			return fmt.Errorf("Weights: %d entries, want 2", len(ws))
		}
		for k, e := range ws {
			if e.Value == nil || *e.Value == nil || !e.Trainable {
				return fmt.Errorf("Weights: entry %d of layer %d is nil or not trainable", k, i)
			}
			r.ws = append(r.ws, e.Value)
		}
	}
	return nil
}

func (c TrainCase) shared() (layers.Initializer, error) {
	switch c.Share {
	case "full":
		return initializers.NewFull(&initializers.FullConfig{Value: 0.25}), nil
	case "uniform":
		return initializers.NewUniform(&initializers.UniformConfig{Lower: -1, Upper: 1})
	}
	return initializers.NewNormal(&initializers.NormalConfig{Mean: 0, StdDev: 0.5})
}

func newTrainer(c TrainCase) (*trainer, error) {
	r := &trainer{c: c}
	w := c.In
	var shared map[string]layers.Initializer
	if c.Share != "" {
		one, err := c.shared()
		if err != nil {
			return nil, err
		}
		shared = map[string]layers.Initializer{"Weight": one, "Bias": one}
	}
	for i, l := range c.L {
		if l.Re > 0 {
			r.fcs = append(r.fcs, r.fcs[l.Re-1])
			w = l.Out
			continue
		}
		cf := &layers.FCConfig{Inputs: w, Outputs: l.Out}
		if shared != nil {
			cf.Initializers = shared
		} else if !l.Def {
			var got [][]int
			cf.Initializers = map[string]layers.Initializer{"Weight": givenInit{l.W, true, &got}, "Bias": givenInit{l.B, true, &got}}
		}
		fc, err := layers.NewFC(cf)
		if err != nil || fc == nil {
			return nil, fmt.Errorf("NewFC failed on a valid config (layer %d): %v", i, err)
		}
		r.fcs = append(r.fcs, fc)
		w = l.Out
	}
	for _, d := range c.Data {
		x, err := lib.Build([]int{d.N, c.In}, d.X, d.Track)
		if err != nil {
			return nil, err
		}
		sh := []int{d.N, w}
		if c.Loss != "ce" {
			sh = []int{d.N * w}
		}
		y, err := lib.Build(sh, d.Y, false)
		if err != nil {
			return nil, err
		}
		r.xs, r.ys = append(r.xs, x), append(r.ys, y)
	}
	return r, r.fresh()
}

// predict is the forward pass; rank 1 for mse and bce.
func (r *trainer) predict(d int) (lib.Tensor, error) {
	x := r.xs[d]
	if r.c.Data[d].Track {
		x.ResetGradContext(true)
	}
	in := layers.NewInput()
	in.SeedFunc = func() tensor.Tensor { return x }
	h, err := forward("Input", in)
	if err != nil {
		return nil, err
	}
	for i, l := range r.c.L {
		y, err := forward("FC", r.fcs[i], h)
		if err != nil {
			return nil, fmt.Errorf("layer %d: %v", i, err)
		}
		if r.acts[i] != nil {
			if y, err = forward(l.A.String(), r.acts[i], y); err != nil {
				return nil, fmt.Errorf("layer %d: %v", i, err)
			}
		}
		if l.Res {
			if y, err = y.Add(h); err != nil {
				return nil, fmt.Errorf("layer %d: residual Add failed: %v", i, err)
			}
		}
		h = y
	}
	if r.c.Loss == "ce" {
		return h, nil
	}
	n, o := r.c.Data[d].N, r.c.L[len(r.c.L)-1].Out
	switch {
	case r.c.How == 1:
		h, err = h.Reshape([]int{n * o})
	case r.c.How == 2 && o == 1:
		h, err = h.Squeeze(1)
	case r.c.How == 3 && n == 1:
		h, err = h.Squeeze(0)
	default:
		h, err = h.Flatten(0)
	}
	if err != nil {
		return nil, fmt.Errorf("making the predictions rank 1 failed: %v", err)
	}
	return h, nil
}

func (r *trainer) loss(ds []int) (p []lib.Tensor, l lib.Tensor, err error) {
	for _, d := range ds {
		y, err := r.predict(d)
		if err != nil {
			return nil, nil, err
		}
		p = append(p, y)
		q, err := computeBy(r.obj, r.c.Loss, y, r.ys[d])
		if err != nil {
			return nil, nil, err
		}
		if l == nil {
			l = q
		} else if l, err = l.Add(q); err != nil {
			return nil, nil, err
		}
	}
	return p, l, nil
}

// refRun is the reference: predictions, loss and gradients at given weights.
type refRun struct {
	tp    *ref.Tape
	w     []*ref.T
	preds []*ref.T
	loss  *ref.T
	wild  bool // too close to a kink or out of the comparable range
	big   float64
	fcs   []refCall
}

// refCall is one use of an FC layer in the reference.
type refCall struct {
	w    int // slot of its weight
	z    *ref.T
	habs []float64 // per row, the sum of the magnitudes of the inputs
}

// slack bounds the effect of rounding errors of forward values on the
// gradients: of row sums that cancel on the weight they multiply, and of
// predictions close to their targets on everything.
func (o *refRun) slack(loss string, adj *ref.Adj) [][]float64 {
	s := make([][]float64, len(o.w))
	for i := range s {
		s[i] = make([]float64, len(o.w[i].V))
	}
	for _, c := range o.fcs {
		a := ref.Of(adj.Abs, c.z)
		m := c.z.Shape[1]
		for p := range a {
			s[c.w][p%m] += 1e-11 * a[p] * c.habs[p/m]
		}
	}
	if loss != "mse" {
		return s
	}
	for _, p := range o.preds {
		w := make([]float64, len(p.V))
		for i := range w {
			w[i] = 1e-10 * (1 + o.big) / float64(len(p.V))
		}
		b := o.tp.BackW(p, w)
		for i := range s {
			for q, v := range ref.Of(b.Abs, o.w[i]) {
				s[i][q] += v
			}
		}
	}
	return s
}

func (r *trainer) reference(ws [][]float64, ds []int) *refRun {
	o := &refRun{tp: ref.NewTape()}
	slot := make([]int, len(r.c.L))
	k := 0
	for i, l := range r.c.L {
		if l.Re > 0 {
			slot[i] = slot[l.Re-1]
			continue
		}
		slot[i] = k
		for j := 0; j < 2; j++ {
			o.w = append(o.w, o.tp.Leaf([]int{l.Out}, append([]float64{}, ws[k]...)))
			k++
		}
	}
	for _, d := range ds {
		b := r.c.Data[d]
		h := o.tp.Leaf([]int{b.N, r.c.In}, append([]float64{}, b.X...))
		for i, l := range r.c.L {
			z := refFC(o.tp, h, o.w[slot[i]], o.w[slot[i]+1])
			m := maxAbs(z.V)
			o.big = math.Max(o.big, m)
			call := refCall{w: slot[i], z: z, habs: make([]float64, b.N)}
			for p, v := range h.V {
				call.habs[p/h.Shape[1]] += math.Abs(v)
			}
			o.fcs = append(o.fcs, call)
			for _, v := range call.habs {
				o.big = math.Max(o.big, v)
			}
			if !(o.big < 3e3) {
				o.wild = true
				return o
			}
			if l.A.K == "relu" || l.A.K == "leaky" {
				for _, v := range z.V {
					if math.Abs(v) < 1e-8*(1+m) {
						o.wild = true
					}
				}
			}
			if l.A.K == "sigmoid" && m > 300 {
				o.wild = true
			}
			y := l.A.refAct(o.tp, z)
			if l.Res {
				y = o.tp.Apply(ref.Op{K: "Add"}, y, h)
			}
			h = y
		}
		if r.c.Loss != "ce" {
			h = o.tp.Apply(ref.Op{K: "Reshape", S: []int{len(h.V)}}, h)
		}
		if r.c.Loss != "mse" {
			for _, v := range h.V {
				if v >= 1e-5 && v <= 1-1e-5 || v < 1e-13 || r.c.Loss == "ce" && v >= 1e-5 && v <= 1-1e-9 {
					continue
				}
				o.wild = true
			}
		}
		o.preds = append(o.preds, h)
		y := o.tp.Leaf(h.Shape, append([]float64{}, b.Y...))
		q := refLoss(o.tp, r.c.Loss, h, y)
		if o.loss == nil {
			o.loss = q
		} else {
			o.loss = o.tp.Apply(ref.Op{K: "Add"}, o.loss, q)
		}
	}
	if o.tp.NonDiff || !finite(o.loss.V[0]) {
		o.wild = true
	}
	return o
}

func (r *trainer) checkPred(what string, o *refRun, p []lib.Tensor, l lib.Tensor) error {
	s := 1.0
	for i := range p {
		m := 1 + maxAbs(o.preds[i].V)
		s = math.Max(s, m*m)
		err := lib.CheckNear(what+": prediction", p[i], o.preds[i].Shape, o.preds[i].V, func(int) float64 { return 1e-9 * m })
		if err != nil {
			return err
		}
	}
	for _, d := range r.c.Data {
		m := 1 + maxAbs(d.Y)
		s = math.Max(s, m*m)
	}
	return lib.CheckNear(what+": loss", l, []int{}, o.loss.V, func(int) float64 { return 1e-9 * (s + math.Abs(o.loss.V[0])) })
}

func checkTrain(c TrainCase, x *eng.Ctx) error {
	r, err := newTrainer(c)
	if err != nil {
		return err
	}
	nw := len(r.ws)
	read := func() ([][]float64, error) {
		o := make([][]float64, nw)
		k := 0
		for i, l := range c.L {
			if l.Re > 0 {
				continue
			}
			for _, t := range []lib.Tensor{r.fcs[i].Weight, r.fcs[i].Bias} {
				if t == nil || *r.ws[k] != t {
					return nil, fmt.Errorf("the pointer of weight %d does not address the parameter of its layer", k)
				}
				if err := lib.CheckShape(fmt.Sprintf("weight %d", k), t, []int{l.Out}); err != nil {
					return nil, err
				}
				if _, o[k], err = lib.Read(t); err != nil {
					return nil, err
				}
				k++
			}
		}
		return o, nil
	}
	// status of each weight: ready (reset to tracked), frozen, or stale
	const ready, frozen, stale = 0, 1, 2
	st := make([]int, nw)
	var late func() error
	updates, errs := 0, 0
	for k, t := range c.Steps {
		what := fmt.Sprintf("step %d", k)
		if t.Fresh {
			if err := r.fresh(); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
		eval := func(when string, ws [][]float64) error {
			if ws == nil {
				if ws, err = read(); err != nil {
					return err
				}
			}
			o := r.reference(ws, t.D)
			p, l, err := r.loss(t.D)
			if err != nil {
				return fmt.Errorf("%s: evaluation %s: %v", what, when, err)
			}
			if o.wild {
				return nil
			}
			return r.checkPred(fmt.Sprintf("%s: evaluation %s", what, when), o, p, l)
		}
		if late != nil && t.Eval&1 != 0 {
			// with weights that are not reset yet
			if err := eval("before the reset", nil); err != nil {
				return err
			}
		}
		if late != nil {
			if err := late(); err != nil {
				return err
			}
			late = nil
		}
		if t.Frozen != 0 {
			for i := range st {
				if st[i] == ready && t.Frozen>>(uint(i)%32)&1 == 1 {
					(*r.ws[i]).ResetGradContext(false)
					st[i] = frozen
				}
			}
		}
		ws, err := read()
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		anyStale := false
		for i := range st {
			anyStale = anyStale || st[i] == stale
			if g := (*r.ws[i]).Gradient(); g != nil {
				return fmt.Errorf("%s: weight %d has a gradient before the forward pass", what, i)
			}
		}
		o := r.reference(ws, t.D)
		if o.wild {
			x.Label("stopped: not comparable")
			break
		}
		if t.Eval&1 != 0 {
			if err := eval("before the step", ws); err != nil {
				return err
			}
		}
		p, l, err := r.loss(t.D)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := r.checkPred(what, o, p, l); err != nil {
			return err
		}
		if t.Eval&2 != 0 {
			if err := eval("between forward pass and back-propagation", ws); err != nil {
				return err
			}
		}
		if !t.NoBP {
			err := tensor.BackPropagate(l)
			if err != nil && !anyStale {
				return fmt.Errorf("%s: BackPropagate failed: %v", what, err)
			}
		}
		if t.Eval&2 != 0 {
			if err := eval("before the update", ws); err != nil {
				return err
			}
		}
		adj := o.tp.Back(o.loss)
		slack := o.slack(c.Loss, adj)
		if t.NoUp {
			x.Label("update omitted")
		} else {
			for j := range r.ws {
				i := j
				if t.Rev {
					i = nw - 1 - j
				}
				old := *r.ws[i]
				err := r.sgd.Update(r.ws[i])
				must := !t.NoBP && !anyStale && st[i] == ready
				if err != nil {
					if must {
						return fmt.Errorf("%s: Update of weight %d failed: %v", what, i, err)
					}
					if *r.ws[i] != old {
						return fmt.Errorf("%s: Update of weight %d failed but replaced it", what, i)
					}
					errs++
					continue
				}
				switch {
				case t.NoBP:
					return fmt.Errorf("%s: Update of weight %d succeeded without a back-propagation", what, i)
				case st[i] == stale:
					return fmt.Errorf("%s: Update of weight %d succeeded although its reset was omitted", what, i)
				case st[i] == frozen:
					return fmt.Errorf("%s: Update of weight %d succeeded although it is untracked", what, i)
				}
				_, v, err := lib.Read(*r.ws[i])
				if err != nil {
					return err
				}
				if len(v) != len(ws[i]) {
					return fmt.Errorf("%s: weight %d has changed its shape to %v", what, i, (*r.ws[i]).Shape())
				}
				g, ab, er := ref.Of(adj.D, o.w[i]), ref.Of(adj.Abs, o.w[i]), ref.Of(adj.Err, o.w[i])
				for q := range v {
					want := ws[i][q] - r.lr*g[q]
					tol := math.Abs(r.lr)*(2e-8*ab[q]+16*er[q]+slack[i][q]+1e-12) + 8*eps*(math.Abs(ws[i][q])+math.Abs(want))
					if err := lib.Near(v[q], want, tol); err != nil {
						return fmt.Errorf("%s: after the update element %d of weight %d (was %v, gradient of the loss is %v, lr = %v) %v", what, q, i, ws[i][q], g[q], r.lr, err)
					}
				}
				if (*r.ws[i]).Gradient() != nil {
					return fmt.Errorf("%s: weight %d has a gradient right after the update", what, i)
				}
				st[i] = stale
				updates++
			}
		}
		now, err := read()
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for i := range now {
			if st[i] != stale && !sameVals(now[i], ws[i]) {
				return fmt.Errorf("%s: weight %d was not updated but changed from %v to %v", what, i, ws[i], now[i])
			}
		}
		if t.Eval&4 != 0 {
			if err := eval("after the update", now); err != nil {
				return err
			}
		}
		k := k
		reset := func() error {
			for i := range r.ws {
				// an omission is only one where the weight was updated
				if st[i] == stale && t.Omit>>(uint(i)%32)&1 == 1 && !anyStale {
					x.Label("reset omitted")
					continue
				}
				(*r.ws[i]).ResetGradContext(true)
				if t.Twice {
					(*r.ws[i]).ResetGradContext(true)
				}
				st[i] = ready
				if (*r.ws[i]).Gradient() != nil {
					return fmt.Errorf("step %d: weight %d has a gradient after ResetGradContext", k, i)
				}
				if t.Fresh && t.Twice {
					if err := r.fresh(); err != nil {
						return err
					}
				}
			}
			after, err := read()
			if err != nil {
				return err
			}
			for i := range after {
				if !sameVals(after[i], now[i]) {
					return fmt.Errorf("step %d: weight %d changed from %v to %v by ResetGradContext", k, i, now[i], after[i])
				}
			}
			return nil
		}
		if t.Late {
			late = reset
			continue
		}
		if err := reset(); err != nil {
			return err
		}
		if t.Eval&8 != 0 {
			if err := eval("after the reset", now); err != nil {
				return err
			}
		}
	}
	if updates > nw || updates > 0 && errs > 0 {
		x.NonTrivial()
	}
	x.Label("loss %s", c.Loss)
	x.Label("layers %d", len(c.L))
	if errs > 0 {
		x.Label("some updates rejected")
	}
	if updates > 5*nw {
		x.Label("more than 5 steps")
	}
	return nil
}

// enumTrain trains every small model shape for some steps.
func enumTrain(th bool, yield func(TrainCase) bool) {
	m := 3
	if th {
		m = 4
	}
	seed := uint64(0)
	for _, loss := range []string{"mse", "bce", "ce"} {
		for n := 1; n <= m; n++ {
			for f := 1; f <= m; f++ {
				for o := 1; o <= m; o++ {
					for _, a := range []Act{{K: "none"}, {K: "relu"}, {K: "leaky", M: 0.2}, {K: "sigmoid"}, {K: "tanh"}, {K: "softmax", D: 1}, {K: "softmax"}} {
						for nl := 1; nl <= 2; nl++ {
							if nl == 1 && loss != "mse" && a.K != "sigmoid" && a.K != "softmax" {
								continue
							}
							for v := 0; v < 4; v++ {
								seed++
								c := TrainCase{In: f, Loss: loss, How: v, LR: lib.F1([]float64{0.1, 0.02, 0.5, 1e-3}[v])}
								c.L = []TLayer{{Out: o, A: a, W: fill(seed, o), B: fill(seed+1, o)}}
								if nl == 2 {
									c.L = append(c.L, TLayer{Out: o, A: Act{K: "sigmoid"}, W: fill(seed+2, o), B: fill(seed+3, o), Res: loss == "mse" && v == 2})
									if v == 3 {
										c.L[1] = TLayer{Out: o, A: Act{K: "sigmoid"}, Re: 1}
									}
								}
								for _, l := range c.L {
									for i := range l.W {
										l.W[i] /= 8
										l.B[i] /= 8
									}
								}
								for k := 0; k < 2; k++ {
									d := TBatch{N: n, X: fill(seed+10+uint64(k), n*f), Y: fill(seed+20+uint64(k), n*o)}
									for i := range d.X {
										d.X[i] /= 4
									}
									for i := range d.Y {
										d.Y[i] = math.Mod(math.Abs(d.Y[i]), 1)
									}
									c.Data = append(c.Data, d)
								}
								c.Steps = []TStep{{D: []int{0}}, {D: []int{1}}, {D: []int{0}, Late: true, Eval: v}, {D: []int{1, 0}}, {D: []int{0}, Omit: uint32(v) * 5}, {D: []int{1}}, {D: []int{1}}}
								if !yield(c) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

func C11() *eng.Prop {
	return &eng.Prop{
		ID:   "C11",
		Rule: "a case is non-trivial when a training loop made more updates than the model has weights (so that an updated weight was trained again) or both an accepted and a rejected update, every new weight compared with w - lr * dLoss/dw at the weights of that step",
		Parts: []eng.AnyPart{
			eng.Part[TrainCase]{Name: "all small models", Enum: enumTrain, Check: checkTrain},
			eng.Part[TrainCase]{Name: "plain loops", Quick: 20000, Thorough: 400000, Gen: genTrain(trainSize{6, 6, 3, 12, false}, true), Check: checkTrain},
			eng.Part[TrainCase]{Name: "loops with omissions and extras", Quick: 30000, Thorough: 600000, Gen: genTrain(trainSize{6, 6, 3, 10, false}, false), Check: checkTrain},
			eng.Part[TrainCase]{Name: "long loops", Quick: 400, Thorough: 8000, Gen: genTrain(trainSize{4, 4, 2, 150, false}, false), Check: checkTrain},
			eng.Part[TrainCase]{Name: "very long loops", Quick: 600, Thorough: 12000, Gen: genTrain(trainSize{3, 3, 2, 400, true}, false), Check: checkTrain},
			eng.Part[TrainCase]{Name: "one long dimension", Quick: 160, Thorough: 4000, Gen: eng.Large(genTrain(trainSize{6, 6, 2, 5, false}, false)), Check: checkTrain},
			eng.Part[TrainCase]{Name: "huge batches", Quick: 10, Thorough: 400, Gen: eng.Huge(genTrain(trainSize{6, 2, 2, 2, false}, false)), Check: checkTrain},
			eng.Part[TrainCase]{Name: "large models", Quick: 150, Thorough: 3000, Gen: genTrain(trainSize{40, 40, 3, 6, false}, false), Check: checkTrain},
		},
		Assumptions: []string{
			"a loop is followed until the loss is no longer comparable: a pre-activation of (Leaky)Relu within 1e-8 of 0, a prediction within 1e-5 of 0 or 1 that is not clearly clipped, values above 3e3",
			"the derivative is recomputed at the weights read from the library in every step, with a rounding allowance of 2e-8 of the summed magnitudes of all paths",
			"when the reset of some weights was omitted, the updates of the others may be rejected too or must be right",
		},
	}
}
