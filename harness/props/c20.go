package props

import (
	"fmt"
	"math"
	"runtime"
	"sync"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// CTask is one thing a goroutine does.
type CTask struct {
	K     string `json:"k"`            // prog, model, train, rand, read, newfc
	C     int    `json:"c,omitempty"`  // prog: which part of the program
	BP    bool   `json:"bp,omitempty"` // prog: on private copies of the tracked tensors, then back-propagate
	I     int    `json:"i,omitempty"`  // rand: initializer; read, act, loss: node
	J     int    `json:"j,omitempty"`  // loss: second node
	Shape []int  `json:"shape,omitempty"`
	N     int    `json:"n,omitempty"` // train: steps; rand: calls
}

// ConcCase is a set of goroutines over shared tensors and shared components.
type ConcCase struct {
	P     Prog       `json:"p"`
	Pre   int        `json:"pre"`             // steps that are run beforehand: their results are shared
	Spent int        `json:"spent,omitempty"` // 1 + node back-propagated beforehand
	M     *TrainCase `json:"m,omitempty"`
	R     []RInit    `json:"r,omitempty"`
	A     []Act      `json:"a,omitempty"` // shared activation objects
	G     [][]CTask  `json:"g"`
	Procs int        `json:"procs,omitempty"`
}

// cworld is one instance of everything shared.
type cworld struct {
	c    *ConcCase
	ts   []lib.Tensor // leaves and prefix
	tr   []bool
	comp []int // per step: part of the program (-1: prefix)
	n    int
	sh   [][]int
	rg   [][]tensor.Range
	m    *trainer
	cfg  *layers.FCConfig
	rf   []func([]int) (tensor.Tensor, error)
	act  []forwarder
	loss []losser
	inp  *layers.Input
}

// cres is what one task observed.
type cres struct {
	S [][]int
	V [][]float64
	E []string
}

func (r *cres) add(t lib.Tensor, err error) {
	if err != nil {
		r.E = append(r.E, err.Error())
		return
	}
	if t == nil {
		r.E = append(r.E, "nil")
		return
	}
	s, v, err := lib.Read(t)
	if err != nil {
		r.E = append(r.E, err.Error())
		return
	}
	r.S, r.V = append(r.S, append([]int{}, s...)), append(r.V, v)
}

func (r *cres) num(v ...float64) { r.S, r.V = append(r.S, []int{len(v)}), append(r.V, v) }

func (r *cres) diff(o *cres) string {
	if len(r.E) != len(o.E) || len(r.V) != len(o.V) {
		return fmt.Sprintf("%d results and errors %q, sequentially %d results and errors %q", len(r.V), r.E, len(o.V), o.E)
	}
	for i := range r.E {
		if r.E[i] != o.E[i] {
			return fmt.Sprintf("error %q, sequentially %q", r.E[i], o.E[i])
		}
	}
	for i := range r.V {
		if !ref.EqShape(r.S[i], o.S[i]) {
			return fmt.Sprintf("result %d has shape %v, sequentially %v", i, r.S[i], o.S[i])
		}
		for p := range r.V[i] {
			if !lib.Same(r.V[i][p], o.V[i][p]) {
				return fmt.Sprintf("result %d, element %v is %v, sequentially %v", i, lib.Index(p, r.S[i]), r.V[i][p], o.V[i][p])
			}
		}
	}
	return ""
}

// conc applies a step with argument slices that are shared by all goroutines.
func (w *cworld) conc(i int, in []lib.Tensor) (lib.Tensor, error) {
	st := w.c.P.Steps[i]
	switch st.K {
	case "Reshape":
		return in[0].Reshape(w.sh[i])
	case "Broadcast":
		return in[0].Broadcast(w.sh[i])
	case "Slice":
		return in[0].Slice(w.rg[i])
	case "Patch":
		return in[0].Patch(w.rg[i], in[1])
	}
	return lib.Raw(st.Op, in...)
}

func newCWorld(c *ConcCase) (*cworld, error) {
	w := &cworld{c: c}
	nl := len(c.P.Leaves)
	for _, l := range c.P.Leaves {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return nil, err
		}
		w.ts, w.tr = append(w.ts, t), append(w.tr, l.T)
	}
	// parts: steps connected through non-shared nodes
	id := make([]int, nl+len(c.P.Steps))
	for i := range id {
		id[i] = -1
	}
	for i, st := range c.P.Steps {
		w.sh = append(w.sh, append([]int{}, st.S...))
		w.rg = append(w.rg, lib.Ranges(st.R))
		k := nl + i
		if i < c.Pre {
			in := make([]lib.Tensor, len(st.In))
			tr := false
			for q, j := range st.In {
				in[q] = w.ts[j]
				tr = tr || w.tr[j]
			}
			t, err := lib.Apply(st.Op, in...)
			if err != nil {
				return nil, err
			}
			w.ts, w.tr = append(w.ts, t), append(w.tr, tr && !ref.IsCompare(st.K))
			w.comp = append(w.comp, -1)
			continue
		}
		p := -1
		for _, j := range st.In {
			if id[j] >= 0 && p < 0 {
				p = id[j]
			}
		}
		if p < 0 {
			p = w.n
			w.n++
		}
		for _, j := range st.In { // merge
			if q := id[j]; q >= 0 && q != p {
				for x := range id {
					if id[x] == q {
						id[x] = p
					}
				}
				for x := range w.comp {
					if w.comp[x] == q {
						w.comp[x] = p
					}
				}
			}
		}
		id[k] = p
		w.comp = append(w.comp, p)
	}
	if c.Spent > 0 && c.Spent-1 < len(w.ts) {
		if err := tensor.BackPropagate(w.ts[c.Spent-1]); err != nil {
			return nil, err
		}
	}
	if c.M != nil {
		m, err := newTrainer(*c.M)
		if err != nil {
			return nil, err
		}
		w.m = m

		l := c.M.L[0]
		w.cfg = &layers.FCConfig{Inputs: c.M.In, Outputs: l.Out, Initializers: map[string]layers.Initializer{
			"Weight": fixedInit(l.W), "Bias": fixedInit(l.B)}}
	}
	for _, a := range c.A {
		f, err := a.make()
		if err != nil {
			return nil, err
		}
		w.act = append(w.act, f)
	}
	for _, k := range concLosses {
		w.loss = append(w.loss, lossOf(k))
	}
	w.inp = layers.NewInput()
	w.inp.SeedFunc = func() tensor.Tensor { return w.ts[0] }
	for _, r := range c.R {
		f, err := r.make()
		if err != nil {
			return nil, err
		}
		w.rf = append(w.rf, f)
	}
	return w, nil
}

// fixedInit is a custom initializer without state.
type fixedInit []float64

func (f fixedInit) Init(shape []int) (tensor.Tensor, error) {
	return lib.Build([]int{len(f)}, f, true)
}

func (w *cworld) task(t CTask, o *cres) error {
	c := w.c
	nl := len(c.P.Leaves)
	switch t.K {
	case "prog":
		if w.n == 0 {
			return nil
		}
		part := t.C % w.n
		ts := append([]lib.Tensor{}, w.ts...)
		ts = append(ts, make([]lib.Tensor, len(c.P.Steps)-c.Pre)...)
		own := []lib.Tensor{}
		if t.BP {
			// private copies of whatever is tracked
			for i := range w.ts {
				if !w.tr[i] {
					continue
				}
				var x lib.Tensor
				var err error
				if i < nl {
					l := c.P.Leaves[i]
					x, err = lib.Build(l.S, l.V, true)
				} else {
					st := c.P.Steps[i-nl]
					in := make([]lib.Tensor, len(st.In))
					for q, j := range st.In {
						in[q] = ts[j]
					}
					x, err = w.conc(i-nl, in)
				}
				if err != nil {
					o.add(nil, err)
					return nil
				}
				ts[i] = x
				own = append(own, x)
			}
		}
		var last lib.Tensor
		for i := c.Pre; i < len(c.P.Steps); i++ {
			if w.comp[i] != part {
				continue
			}
			st := c.P.Steps[i]
			in := make([]lib.Tensor, len(st.In))
			for q, j := range st.In {
				in[q] = ts[j]
			}
			y, err := w.conc(i, in)
			o.add(y, err)
			if err != nil || y == nil {
				return nil
			}
			ts[nl+i] = y
			last = y
			own = append(own, y)
		}
		if t.BP && last != nil {
			if err := tensor.BackPropagate(last); err != nil {
				o.E = append(o.E, err.Error())
			}
			for _, x := range own {
				if g := x.Gradient(); g != nil {
					o.add(g, nil)
				} else {
					o.num()
				}
			}
		}
	case "read":
		x := w.ts[t.I%len(w.ts)]
		o.num(x.Sum(), x.Max(), x.Min(), x.Avg(), x.Var(), x.Std(), x.Mean(), float64(x.NElems()))
		o.add(x, nil)
		for _, y := range w.ts {
			eq, err := x.Equals(y)
			if err != nil {
				o.E = append(o.E, err.Error())
			} else if eq {
				o.num(1)
			} else {
				o.num(0)
			}
		}
		if g := x.Gradient(); g != nil {
			o.add(g, nil)
			z := g.Scale(2)
			o.add(z, nil)
		}
	case "model":
		if w.m == nil {
			return nil
		}
		for d := range c.M.Data {
			d = (d + t.C) % len(c.M.Data)
			p, l, err := w.m.loss([]int{d})
			if err != nil {
				o.E = append(o.E, err.Error())
				continue
			}
			o.add(p[0], nil)
			o.add(l, nil)
			if c.M.Loss != "ce" {
				a := metrics.NewAccuracy()
				if err := a.Accumulate(p[0], w.m.ys[d]); err != nil {
					o.E = append(o.E, err.Error())
				}
				r, err := a.Result()
				if err != nil {
					o.E = append(o.E, err.Error())
				}
				o.num(r)
			}
		}
	case "train":
		if w.m == nil {
			return nil
		}
		// an own model; the data and the component objects are shared
		m, err := newTrainer(*c.M)
		if err != nil {
			o.E = append(o.E, err.Error())
			return nil
		}
		m.xs, m.ys, m.acts, m.obj = w.m.xs, w.m.ys, w.m.acts, w.m.obj
		for s := 0; s < t.N; s++ {
			_, l, err := m.loss([]int{s % len(c.M.Data)})
			if err != nil {
				o.E = append(o.E, err.Error())
				return nil
			}
			o.add(l, nil)
			if err := tensor.BackPropagate(l); err != nil {
				o.E = append(o.E, err.Error())
				return nil
			}
			for _, p := range m.ws {
				o.add((*p).Gradient(), nil)
				if err := m.sgd.Update(p); err != nil {
					o.E = append(o.E, err.Error())
					continue
				}
				(*p).ResetGradContext(true)
				o.add(*p, nil)
			}
		}
	case "newfc":
		if w.m == nil {
			return nil
		}
		fc, err := layers.NewFC(w.cfg)
		if err != nil {
			o.E = append(o.E, err.Error())
			return nil
		}
		y, err := fc.Forward(w.m.xs[0])
		o.add(y, err)
		if err == nil {
			if err := tensor.BackPropagate(y); err != nil {
				o.E = append(o.E, err.Error())
			}
			o.add(fc.Weight.Gradient(), nil)
			o.add(fc.Bias.Gradient(), nil)
		}
	case "act", "loss", "input":
		// one component object, on shared tensors or on private copies
		own := func(i int, track bool) (lib.Tensor, error) {
			x := w.ts[i%len(w.ts)]
			if t.BP {
				sh, v, err := lib.Read(x)
				if err != nil {
					return nil, err
				}
				return lib.Build(sh, v, track)
			}
			return x, nil
		}
		x, err := own(t.I, true)
		if err != nil {
			return err
		}
		for k := 0; k <= t.N; k++ {
			var y lib.Tensor
			switch {
			case t.K == "input":
				y, err = w.inp.Forward()
				o.add(y, err)
				continue
			case t.K == "act":
				if len(w.act) == 0 {
					return nil
				}
				y, err = w.act[(t.C+k)%len(w.act)].Forward(x)
			default:
				z, err2 := own(t.J, false)
				if err2 != nil {
					return err2
				}
				y, err = w.loss[(t.C+k)%len(w.loss)].Compute(x, z)
			}
			o.add(y, err)
			if t.BP && err == nil && y != nil {
				o.E = append(o.E, fmt.Sprint(tensor.BackPropagate(y)))
				o.add(x.Gradient(), nil)
				x.ResetGradContext(true)
			}
		}
	case "const":
		// constructors with arguments shared by all goroutines
		a, err := tensor.Full(t.Shape, 0.5, sharedConf)
		o.add(a, err)
		a, err = tensor.Zeros(t.Shape, nil)
		o.add(a, err)
		a, err = tensor.Ones(t.Shape, sharedConf)
		o.add(a, err)
		a, err = tensor.Eye(1+len(t.Shape), sharedConf)
		o.add(a, err)
		a, err = tensor.TensorOf(sharedData, sharedConf)
		o.add(a, err)
		if err == nil {
			err = tensor.BackPropagate(a.Exp())
			o.add(a.Gradient(), err)
		}
	case "rand":
		if len(w.rf) == 0 {
			return nil
		}
		i := t.I % len(w.rf)
		for k := 0; k < t.N; k++ {
			y, err := w.rf[i](t.Shape)
			if err != nil {
				o.E = append(o.E, err.Error())
				continue
			}
			_, v, err := lib.Read(y)
			if err != nil {
				return err
			}
			o.S, o.V = append(o.S, []int{len(v)}), append(o.V, v)
		}
	}
	return nil
}

var concLosses = []string{"mse", "bce", "ce"}

var sharedConf = lib.Conf(true)
var sharedData = [][]float64{{1, 2, 3}, {-1, 0.5, 0.25}}

func checkConc(c ConcCase, x *eng.Ctx) error {
	if c.Procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	}
	// the concurrent run comes first, on objects nobody has used yet
	w, err := newCWorld(&c)
	if err != nil {
		return err
	}
	run := func(w *cworld, g int, out [][]cres) error {
		return eng.Guard(func() error {
			for k, t := range c.G[g] {
				if err := w.task(t, &out[g][k]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	mk := func() [][]cres {
		o := make([][]cres, len(c.G))
		for i := range o {
			o[i] = make([]cres, len(c.G[i]))
		}
		return o
	}
	got, want := mk(), mk()
	errs := make([]error, len(c.G))
	pans := make([]any, len(c.G))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range c.G {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() { pans[g] = recover() }()
			<-start
			errs[g] = run(w, g, got)
		}(g)
	}
	close(start)
	wg.Wait()
	for _, p := range pans {
		if p != nil {
			panic(p)
		}
	}
	// what the shared tensors look like afterwards
	after := make([]cres, len(w.ts))
	for i, t := range w.ts {
		after[i].add(t, nil)
	}
	// the same computations one after another, on equal objects
	w2, err := newCWorld(&c)
	if err != nil {
		return err
	}
	serr := make([]error, len(c.G))
	for g := range c.G {
		serr[g] = run(w2, g, want)
	}
	kinds := map[string]bool{}
	pool, spool := map[int][]float64{}, map[int][]float64{}
	for g := range c.G {
		if (errs[g] == nil) != (serr[g] == nil) {
			return fmt.Errorf("goroutine %d ends with %v, sequentially with %v", g, errs[g], serr[g])
		}
		if errs[g] != nil {
			x.Label("fails sequentially too")
			continue
		}
		for k, t := range c.G[g] {
			kinds[t.K] = true
			if t.K == "rand" {
				a, b := got[g][k], want[g][k]
				for _, v := range a.V {
					pool[t.I%len(c.R)] = append(pool[t.I%len(c.R)], v...)
				}
				for _, v := range b.V {
					spool[t.I%len(c.R)] = append(spool[t.I%len(c.R)], v...)
				}
				if d := (&cres{S: a.S, E: a.E}).diff(&cres{S: b.S, E: b.E}); d != "" {
					return fmt.Errorf("goroutine %d, task %d (%s): %s", g, k, t.K, d)
				}
				continue
			}
			if d := got[g][k].diff(&want[g][k]); d != "" {
				return fmt.Errorf("goroutine %d, task %d (%s): %s", g, k, t.K, d)
			}
		}
	}
	for i, v := range pool {
		// only what holds for the sequential run is demanded
		if c.R[i].judge(spool[i]) != nil {
			continue
		}
		if err := c.R[i].judge(v); err != nil {
			return fmt.Errorf("random draws of several goroutines: %v", err)
		}
	}
	for i, t := range w2.ts {
		var o cres
		o.add(t, nil)
		if d := after[i].diff(&o); d != "" {
			return fmt.Errorf("shared node %d after the concurrent run: %s", i, d)
		}
	}
	if len(c.G) > 1 {
		x.NonTrivial()
	}
	for k := range kinds {
		x.Label("task %s", k)
	}
	x.Label("goroutines %d", len(c.G))
	return nil
}

func genConcModel(s *eng.Src, size trainSize) *TrainCase {
	m := genTrain(size, true)(s)
	w := m.In
	for i := range m.L {
		l := &m.L[i]
		if l.Def {
			l.Def = false
			l.W, l.B = s.NiceN(l.Out), s.NiceN(l.Out)
		}
		w = l.Out
	}
	_ = w
	for i := range m.Data {
		m.Data[i].Track = false
	}
	m.Steps = nil
	if m.Share != "full" {
		m.Share = "" // random parameters differ from run to run
	}
	return &m
}

func genConc(o progOpts, size trainSize, maxG int) func(s *eng.Src) ConcCase {
	return func(s *eng.Src) ConcCase {
		var c ConcCase
		oo := o
		oo.comps = s.Range(1, 4)
		c.P = genProg(s, oo)
		c.P.Roots = nil
		if s.Bool() && len(c.P.Steps) > 1 {
			c.Pre = s.Intn(len(c.P.Steps) / 2)
		}
		if s.Chance(1, 4) {
			c.Spent = 1 + s.Intn(len(c.P.Leaves)+c.Pre)
		}
		if s.Chance(1, 3) {
			c.M = genConcModel(s, size)
		}
		for i := s.Intn(4); i > 0; i-- {
			c.A = append(c.A, drawAct(s, s.Range(1, 3)))
		}
		nr := s.Intn(3)
		for i := 0; i < nr; i++ {
			c.R = append(c.R, genRInit(s, false))
		}
		task := func() CTask {
			switch s.Weighted(6, 1, 2, 2, 1, 1, 1, 2, 2, 1) {
			case 7:
				return CTask{K: "act", C: s.Intn(4), I: s.Intn(16), N: s.Intn(3), BP: s.Bool()}
			case 8:
				i := s.Intn(16)
				return CTask{K: "loss", C: s.Intn(3), I: i, J: eng.Pick(s, []int{i, i, s.Intn(16)}), N: s.Intn(3), BP: s.Bool()}
			case 9:
				return CTask{K: "input", N: s.Intn(3)}
			case 1:
				return CTask{K: "read", I: s.Intn(16)}
			case 2:
				return CTask{K: "model", C: s.Intn(4)}
			case 3:
				return CTask{K: "train", N: s.Range(1, 3)}
			case 4:
				return CTask{K: "newfc"}
			case 5:
				return CTask{K: "rand", I: s.Intn(4), N: s.Range(1, 4), Shape: s.Shape(0, 4, 300)}
			case 6:
				return CTask{K: "const", Shape: s.Shape(0, 4, 40)}
			}
			return CTask{K: "prog", C: s.Intn(4), BP: s.Chance(1, 3)}
		}
		ng := s.Range(2, maxG)
		same := s.Chance(1, 3)
		for g := 0; g < ng; g++ {
			if same && g > 0 {
				c.G = append(c.G, c.G[0])
				continue
			}
			k := s.Range(1, 4)
			var ts []CTask
			for i := 0; i < k; i++ {
				ts = append(ts, task())
			}
			c.G = append(c.G, ts)
		}
		c.Procs = eng.Pick(s, []int{0, 0, 2, 8, 16})
		return c
	}
}

// enumConc runs every operation, activation, loss and constructor in several
// goroutines at once on the same operands, first thing in the process.
func enumConc(th bool, yield func(ConcCase) bool) {
	var ops []string
	seen := map[string]bool{}
	for _, k := range append(append([]string{}, ref.AllDiff()...), ref.Compare...) {
		if !seen[k] {
			seen[k] = true
			ops = append(ops, k)
		}
	}
	seeds := 2
	if th {
		seeds = 12
	}
	for sd := 0; sd < seeds; sd++ {
		for i, k := range ops {
			for _, bp := range []bool{false, true} {
				s := eng.NewSrc(eng.Mix(uint64(sd), uint64(i), 99))
				p := genProg(s, progOpts{maxSteps: 2, maxElems: []int{12, 64}[sd%2], maxRank: 4, compare: true, explicitB: true, comps: 1, ops: []string{k}})
				c := ConcCase{P: p}
				c.P.Roots = nil
				for j := range c.P.Leaves {
					c.P.Leaves[j].T = (sd+j)%2 == 0
				}
				for g := 0; g < 6; g++ {
					c.G = append(c.G, []CTask{{K: "prog", BP: bp}})
				}
				if sd%2 == 1 && bp {
					c.G[0][0].BP = false
					c.G[1][0].BP = false
				}
				if !yield(c) {
					return
				}
			}
		}
		for _, loss := range []string{"mse", "bce", "ce"} {
			for _, a := range []Act{{K: "none"}, {K: "relu"}, {K: "leaky", M: 0.2}, {K: "sigmoid"}, {K: "tanh"}, {K: "softmax", D: 1}, {K: "softmax", Nil: true}} {
				for _, k := range []string{"model", "train", "newfc"} {
					q := uint64(sd*7 + 1)
					o := 1 + sd%3
					m := &TrainCase{In: 3, Loss: loss, How: sd % 4, LR: 0.1, L: []TLayer{{Out: 2, A: a, W: fill(q, 2), B: fill(q+1, 2)}, {Out: o, A: Act{K: "sigmoid"}, W: fill(q+2, o), B: fill(q+3, o)}}}
					d := TBatch{N: 4, X: fill(q+4, 12), Y: fill(q+5, 4*o)}
					for i := range d.Y {
						d.Y[i] = math.Mod(math.Abs(d.Y[i]), 1)
					}
					m.Data = []TBatch{d}
					c := ConcCase{P: Prog{Leaves: []lib.L{{S: []int{}, V: lib.FL{1}}}}, M: m}
					for g := 0; g < 6; g++ {
						c.G = append(c.G, []CTask{{K: k, N: 2}})
					}
					if !yield(c) {
						return
					}
				}
			}
		}
		// one component object on tensors of different shapes
		for _, k := range []string{"act", "loss"} {
			for q := 0; q < 10; q++ {
				for _, bp := range []bool{false, true} {
					acts := []Act{{K: "relu"}, {K: "leaky", M: 0.2}, {K: "sigmoid"}, {K: "tanh"}, {K: "softmax", D: 1}, {K: "softmax", Nil: true}}
					c := ConcCase{A: acts[:1+q%len(acts)]}
					for i, sh := range [][]int{{3}, {5}, {2, 3}, {4, 2}, {3, 3}} {
						v := fill(uint64(sd*10+i), ref.Prod(sh))
						for p := range v {
							v[p] = math.Mod(math.Abs(v[p]), 1)
						}
						c.P.Leaves = append(c.P.Leaves, lib.L{S: sh, V: v, T: (q+i)%2 == 0})
					}
					for g := 0; g < 6; g++ {
						c.G = append(c.G, []CTask{{K: k, C: q, I: g + q, J: g + q, BP: bp, N: 2}, {K: k, C: q, I: g + q + 1, J: g + q + 1, BP: bp, N: 2}})
					}
					if !yield(c) {
						return
					}
				}
			}
		}
		for _, k := range []string{"full", "uniform", "normal", "heu", "hen", "xu", "xn", "RandU", "RandN"} {
			r := RInit{K: k, A: -1, B: 2, FI: 3, FO: 4, Nil: k == "full"}
			c := ConcCase{P: Prog{Leaves: []lib.L{{S: []int{}, V: lib.FL{1}}}}, R: []RInit{r}}
			for g := 0; g < 6; g++ {
				c.G = append(c.G, []CTask{{K: "rand", N: 5, Shape: []int{4, 20}}})
			}
			if !yield(c) {
				return
			}
		}
		for _, k := range []string{"const", "read"} {
			c := ConcCase{P: Prog{Leaves: []lib.L{{S: []int{2, 3}, V: fill(uint64(sd), 6), T: true}, {S: []int{2, 3}, V: fill(uint64(sd+1), 6)}}}, Spent: sd % 2}
			for g := 0; g < 6; g++ {
				c.G = append(c.G, []CTask{{K: k, Shape: []int{2, 1, 3}, I: g % 2}})
			}
			if !yield(c) {
				return
			}
		}
	}
}

// enumConcBig runs every operation, activation and loss in several goroutines
// at once on the same big operands.
func enumConcBig(th bool, yield func(ConcCase) bool) {
	seeds := 1
	if th {
		seeds = 12
	}
	kinds := append(append([]string{}, ref.AllDiff()...), ref.Compare...)
	for sd := 0; sd < seeds; sd++ {
		for _, huge := range []bool{false, true} {
			o := progOpts{maxSteps: 1, maxElems: 16000, maxRank: 4, compare: true, explicitB: true, comps: 1}
			if huge {
				o.maxElems = 140000
			}
			src := func(i int) *eng.Src {
				s := eng.NewSrc(eng.Mix(uint64(sd), uint64(i), 101))
				s.Big = true
				if huge {
					s.Floor = 60000
				}
				return s
			}
			for i, k := range kinds {
				if huge && k == "Concat" { // it is quadratic in the leading dimensions
					continue
				}
				s := src(i)
				o.ops = []string{k}
				c := ConcCase{P: genProg(s, o)}
				c.P.Roots = nil
				for g := 0; g < 4; g++ {
					c.G = append(c.G, []CTask{{K: "prog", BP: g%2 == 1 && (sd+i)%2 == 0}})
				}
				if !yield(c) {
					return
				}
			}
			for i, a := range []string{"relu", "leaky", "sigmoid", "tanh", "softmax"} {
				s := src(100 + i)
				o.ops = []string{"Scale"}
				c := ConcCase{P: genProg(s, o), A: []Act{{K: a, M: 0.3}}}
				c.P.Roots = nil
				for g := 0; g < 4; g++ {
					c.G = append(c.G, []CTask{{K: "act", BP: g%2 == 1}})
				}
				if !yield(c) {
					return
				}
			}
			for i := range 3 {
				s := src(200 + i)
				n := s.Size(1000, o.maxElems/2)
				sh := []int{n}
				if i == 2 {
					sh = []int{n / 2, 2}
				}
				c := ConcCase{}
				c.P.Leaves = []lib.L{{S: sh, V: s.Floats(ref.Prod(sh), (*eng.Src).Unit), T: true}, {S: sh, V: s.Floats(ref.Prod(sh), (*eng.Src).Unit)}}
				for g := 0; g < 4; g++ {
					c.G = append(c.G, []CTask{{K: "loss", C: i, J: 1, BP: g%2 == 1}})
				}
				if !yield(c) {
					return
				}
			}
		}
	}
}

func C20() *eng.Prop {
	small := progOpts{maxSteps: 6, maxElems: 24, maxRank: 4, compare: true, explicitB: true}
	large := progOpts{maxSteps: 3, maxElems: 2500, maxRank: 3, compare: true, explicitB: true}
	return &eng.Prop{
		ID:     "C20",
		QuickX: 2,
		Rule:   "a case is non-trivial when at least two goroutines ran their tasks under the race detector and every result was compared bit by bit with the same tasks run one after another",
		Race:   true,
		Parts: []eng.AnyPart{
			eng.Part[ConcCase]{Name: "each operation against itself", Enum: enumConc, Check: checkConc},
			eng.Part[ConcCase]{Name: "random programs", Quick: 8000, Thorough: 150000, Gen: genConc(small, trainSize{4, 4, 2, 1, false}, 8), Check: checkConc},
			eng.Part[ConcCase]{Name: "large tensors", Quick: 400, Thorough: 8000, Gen: genConc(large, trainSize{30, 30, 2, 1, false}, 6), Check: checkConc},
			eng.Part[ConcCase]{Name: "each operation against itself on big tensors", Enum: enumConcBig, Check: checkConc, Slow: 4},
			eng.Part[ConcCase]{Name: "many goroutines", Quick: 200, Thorough: 4000, Gen: genConc(small, trainSize{4, 4, 2, 1, false}, 64), Check: checkConc},
		},
		Assumptions: []string{
			"the race detector sees a race when two conflicting accesses of a run are not ordered by synchronisation; schedules are those the Go scheduler produced",
			"goroutines that back-propagate do so on private copies of every tracked tensor",
		},
	}
}

func (r RInit) judge(v []float64) error {
	z, fine := r.norm(v)
	if !fine || r.K == "full" {
		return nil
	}
	if err := r.dups(v); err != nil {
		return err
	}
	if len(z) < 1000 {
		return nil
	}
	return r.stats(z)
}
