package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// SGDCase is a sequence of updates of one pointer. Step i makes the current
// tensor tracked, gives it the gradient G[i] and updates it.
type SGDCase struct {
	W   lib.Data `json:"w"`
	LR  lib.F1   `json:"lr"`
	Nil bool     `json:"nil,omitempty"` // nil config
	G   []lib.FL `json:"g"`
	How []int    `json:"how"` // how the gradient comes about
}

var rates = []float64{0.01, 0.1, 1, 0, -0.1, -1, 0.5, 2, 1e-3, 1e-12, 1e6, -1e6, 3, 1e-300, 0.3, math.Copysign(0, -1)}

func genSGD(maxElems int) func(s *eng.Src) SGDCase {
	return func(s *eng.Src) SGDCase {
		var c SGDCase
		c.W.S = s.Shape(0, 6, maxElems)
		n := ref.Prod(c.W.S)
		f := (*eng.Src).Nice
		if s.Chance(1, 3) {
			f = (*eng.Src).Wild
		}
		c.W.V = s.Floats(n, f)
		specials(s, c.W.V, true)
		c.Nil = s.Chance(1, 6)
		if s.Bool() {
			c.LR = lib.F1(eng.Pick(s, rates))
		} else {
			c.LR = lib.F1(f(s))
		}
		k := s.Range(1, 3)
		for i := 0; i < k; i++ {
			c.G = append(c.G, s.Floats(n, f))
			specials(s, c.G[i], true)
			c.How = append(c.How, s.Intn(5))
		}
		return c
	}
}

// giveGradient back-propagates through w.
func giveGradient(w lib.Tensor, g []float64, how int) error {
	gt, err := lib.Build(append([]int{}, w.Shape()...), g, false)
	if err != nil {
		return err
	}
	var y lib.Tensor
	switch how {
	case 1: // added to something: the gradient is the upstream tensor itself
		var z lib.Tensor
		if z, err = w.Add(gt); err == nil {
			y, err = z.Mul(gt)
		}
	case 2: // two uses
		var a, b lib.Tensor
		if a, err = w.Mul(gt); err == nil {
			if b, err = w.Sub(gt); err == nil {
				y, err = a.Add(b)
			}
		}
	case 3: // through a broadcast to one more dimension
		var z lib.Tensor
		sh := append([]int{2}, w.Shape()...)
		if len(sh) > 6 {
			y, err = w.Mul(gt)
			break
		}
		if z, err = tensor.Full(sh, 0.5, lib.Conf(false)); err == nil {
			if z, err = z.Mul(w); err == nil {
				y, err = z.Mul(gt)
			}
		}
	case 4: // w is its own root
		y = w
	default:
		y, err = w.Mul(gt)
	}
	if err != nil {
		return fmt.Errorf("building a graph failed: %v", err)
	}
	if err := tensor.BackPropagate(y); err != nil {
		return fmt.Errorf("BackPropagate failed: %v", err)
	}
	return nil
}

// checkUpdate updates the tensor behind p and judges the result.
func checkUpdate(sgd *optimizers.SGD, p *tensor.Tensor, lr float64) error {
	old := *p
	sh, w, err := lib.Read(old)
	if err != nil {
		return err
	}
	og := old.Gradient()
	gs, g, err := lib.Read(og)
	if err != nil {
		return err
	}
	if !ref.EqShape(gs, sh) {
		return fmt.Errorf("gradient of shape %v for a tensor of shape %v", gs, sh)
	}
	if err := sgd.Update(p); err != nil {
		return fmt.Errorf("Update failed on a tensor with a gradient: %v", err)
	}
	if *p == nil || *p == old {
		return fmt.Errorf("Update did not put a new tensor behind the pointer")
	}
	if err := lib.CheckBits("the tensor before Update, afterwards", old, sh, w); err != nil {
		return err
	}
	if old.Gradient() == nil {
		return fmt.Errorf("Update removed the gradient of the old tensor")
	}
	if err := lib.CheckBits("the gradient after Update", old.Gradient(), sh, g); err != nil {
		return err
	}
	if err := lib.CheckShape("updated tensor", *p, sh); err != nil {
		return err
	}
	_, v, err := lib.Read(*p)
	if err != nil {
		return err
	}
	for i := range v {
		d := lr * g[i]
		want := w[i] - d
		if !finite(d) || !finite(want) {
			if !finite(w[i]) || !finite(g[i]) {
				if !lib.Same(v[i], want) {
					return fmt.Errorf("updated element %v is %v, want %v (w = %v, g = %v, lr = %v)", lib.Index(i, sh), v[i], want, w[i], g[i], lr)
				}
			}
			continue
		}
		if !(math.Abs(v[i]-want) <= 2*eps*(math.Abs(d)+math.Abs(want))+5e-324) {
			return fmt.Errorf("updated element %v is %v, want %v (w = %v, g = %v, lr = %v)", lib.Index(i, sh), v[i], want, w[i], g[i], lr)
		}
	}
	return nil
}

func (c SGDCase) sgd() (*optimizers.SGD, float64) {
	if c.Nil {
		return optimizers.NewSGD(nil), 0.01
	}
	cf := &optimizers.SGDConfig{LearningRate: float64(c.LR)}
	o := optimizers.NewSGD(cf)
	cf.LearningRate++ // the config stays the caller's
	return o, float64(c.LR)
}

// mustReject checks that an update is an error and replaces nothing.
func mustReject(sgd *optimizers.SGD, p *tensor.Tensor, what string) error {
	var old tensor.Tensor
	if p != nil {
		old = *p
	}
	if err := sgd.Update(p); err == nil {
		return fmt.Errorf("Update of %s is not an error", what)
	}
	if p != nil && *p != old {
		return fmt.Errorf("Update of %s failed but replaced the tensor", what)
	}
	return nil
}

// SGDLong is a long history of updates made by one optimizer.
type SGDLong struct {
	S    [][]int `json:"s"` // shapes of the parameters
	N    int     `json:"n"` // updates
	LR   lib.F1  `json:"lr"`
	Nil  bool    `json:"nil,omitempty"`
	Seed uint64  `json:"seed"` // values and order
}

func genSGDLong(m int) func(s *eng.Src) SGDLong {
	return func(s *eng.Src) SGDLong {
		c := SGDLong{Nil: s.Chance(1, 6), LR: lib.F1(eng.Pick(s, rates))}
		for i := s.Range(1, 3); i > 0; i-- {
			c.S = append(c.S, s.Shape(0, 3, 4))
		}
		c.N = s.Size(1, m)
		if s.Chance(1, 2) {
			c.N = s.Range(m/2, m)
		}
		c.Seed = s.Bits()
		return c
	}
}

func checkSGDLong(c SGDLong, x *eng.Ctx) error {
	s := eng.NewSrc(c.Seed)
	sgd, lr := SGDCase{LR: c.LR, Nil: c.Nil}.sgd()
	ps := make([]tensor.Tensor, len(c.S))
	renew := func(i int) (err error) {
		ps[i], err = lib.Build(c.S[i], s.NiceN(ref.Prod(c.S[i])), true)
		return err
	}
	for i := range ps {
		if err := renew(i); err != nil {
			return err
		}
	}
	for k := 0; k < c.N; k++ {
		i := s.Intn(len(ps))
		_, v, err := lib.Read(ps[i])
		if err != nil {
			return err
		}
		if !(maxAbs(v) < 1e12) {
			if err := renew(i); err != nil {
				return err
			}
		}
		if err := giveGradient(ps[i], s.NiceN(ref.Prod(c.S[i])), 0); err != nil {
			return err
		}
		if err := checkUpdate(sgd, &ps[i], lr); err != nil {
			return fmt.Errorf("update %d of the optimizer: %v", k, err)
		}
		if s.Chance(1, 8) {
			if err := mustReject(sgd, &ps[i], "the tensor an update has just produced"); err != nil {
				return fmt.Errorf("update %d of the optimizer: %v", k, err)
			}
		}
		ps[i].ResetGradContext(true)
	}
	x.NonTrivial()
	if c.N > 1000 {
		x.Label("more than 1000 updates")
	}
	return nil
}

func checkSGD(c SGDCase, x *eng.Ctx) error {
	sgd, lr := c.sgd()
	w, err := lib.Build(c.W.S, c.W.V, true)
	if err != nil {
		return err
	}
	if err := mustReject(sgd, nil, "a nil pointer"); err != nil {
		return err
	}
	var none tensor.Tensor
	if err := mustReject(sgd, &none, "a nil tensor"); err != nil {
		return err
	}
	for i, g := range c.G {
		if err := mustReject(sgd, &w, "a tensor without a gradient"); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		sh, before, err := lib.Read(w)
		if err != nil {
			return err
		}
		if i > 0 && !allFinite(before) {
			break
		}
		if err := giveGradient(w, g, c.How[i]); err != nil {
			return err
		}
		if c.How[i] == 0 {
			if w.Gradient() == nil {
				return fmt.Errorf("no gradient after a back-propagation")
			}
			if err := lib.CheckBits("gradient", w.Gradient(), sh, g); err != nil {
				x.Skip() // a wrong gradient is not this property's matter
				return nil
			}
		}
		if err := checkUpdate(sgd, &w, lr); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		// the new tensor has no gradient of its own yet
		if err := mustReject(sgd, &w, "the tensor an update has just produced"); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		if i%2 == 0 {
			// untracked: nothing arrives
			w.ResetGradContext(false)
			if err := giveGradient(w, g, 0); err != nil {
				return err
			}
			if err := mustReject(sgd, &w, "an untracked tensor"); err != nil {
				return err
			}
		}
		w.ResetGradContext(true)
	}
	x.NonTrivial()
	x.Label("rank %d", len(c.W.S))
	if c.Nil {
		x.Label("default learning rate")
	} else if lr <= 0 {
		x.Label("learning rate <= 0")
	}
	return nil
}

// SGDProg updates every tensor of a back-propagated program that has a
// gradient.
type SGDProg struct {
	P   Prog   `json:"p"`
	LR  lib.F1 `json:"lr"`
	Nil bool   `json:"nil,omitempty"`
}

func checkSGDProg(c SGDProg, x *eng.Ctx) error {
	r, err := exec(&c.P)
	if err != nil {
		return err
	}
	for _, k := range c.P.Roots {
		if err := tensor.BackPropagate(r.ts[k]); err != nil {
			x.Skip() // not this property's matter
			return nil
		}
	}
	sgd, lr := SGDCase{LR: c.LR, Nil: c.Nil}.sgd()
	vals := make([][]float64, len(r.ts))
	for i, t := range r.ts {
		if _, vals[i], err = lib.Read(t); err != nil {
			return err
		}
	}
	some := false
	for i, t := range r.ts {
		p := t
		if t.Gradient() == nil {
			if err := mustReject(sgd, &p, r.name(i)+", which has no gradient,"); err != nil {
				return err
			}
			continue
		}
		if err := checkUpdate(sgd, &p, lr); err != nil {
			return fmt.Errorf("%s: %v", r.name(i), err)
		}
		some = true
		// twice from the same old tensor gives the same result
		q := t
		if err := checkUpdate(sgd, &q, lr); err != nil {
			return fmt.Errorf("%s, second update of the same tensor: %v", r.name(i), err)
		}
	}
	for i, t := range r.ts {
		if err := lib.CheckBits("after all updates "+r.name(i), t, r.rs[i].Shape, vals[i]); err != nil {
			return err
		}
	}
	if some {
		x.NonTrivial()
	}
	return nil
}

// SGDPtrs is a history of a few pointers, optimizers and tensors: tensors are
// back-propagated, reset, put behind several pointers and put back after an
// update.
type SGDPtrs struct {
	L  []lib.L  `json:"l"` // the first tensors
	LR []lib.F1 `json:"lr"`
	P  []int    `json:"p"` // what the pointers hold at first
	Ev []PEv    `json:"ev"`
}

// PEv updates pointer I with optimizer O; puts tensor T, of all seen so far,
// behind pointer I (-1: nil); gives tensor T a gradient; or resets it.
type PEv struct {
	K string `json:"k"` // up, put, bp, reset
	I int    `json:"i,omitempty"`
	O int    `json:"o,omitempty"`
	T int    `json:"t,omitempty"`
	H int    `json:"h,omitempty"`
	B bool   `json:"b,omitempty"`
}

func genSGDPtrs(s *eng.Src) SGDPtrs {
	var c SGDPtrs
	c.L = seqLeaves(s, 12, false)
	for i := range c.L {
		c.L[i].T = s.Chance(5, 6)
	}
	for i := s.Range(1, 2); i > 0; i-- {
		c.LR = append(c.LR, lib.F1(eng.Pick(s, rates)))
	}
	for i := s.Range(1, 3); i > 0; i-- {
		c.P = append(c.P, s.Intn(len(c.L)))
	}
	for n := s.Range(3, 16); n > 0; n-- {
		e := PEv{I: s.Intn(len(c.P)), O: s.Intn(len(c.LR)), T: s.Intn(12), H: s.Intn(5), B: !s.Chance(1, 4)}
		e.K = []string{"up", "put", "bp", "reset"}[s.Weighted(6, 3, 5, 2)]
		if e.K == "put" && s.Chance(1, 12) {
			e.T = -1
		}
		c.Ev = append(c.Ev, e)
	}
	return c
}

func checkSGDPtrs(c SGDPtrs, x *eng.Ctx) error {
	var all []lib.Tensor
	var vals [][]float64
	for _, l := range c.L {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return err
		}
		all, vals = append(all, t), append(vals, l.V)
	}
	var opt []*optimizers.SGD
	cf := &optimizers.SGDConfig{}
	for _, lr := range c.LR {
		cf.LearningRate = float64(lr)
		opt = append(opt, optimizers.NewSGD(cf))
	}
	ps := make([]tensor.Tensor, len(c.P))
	for i, k := range c.P {
		ps[i] = all[k]
	}
	done := 0
	for k, e := range c.Ev {
		t := all[max(0, e.T)%len(all)]
		switch e.K {
		case "put":
			ps[e.I] = t
			if e.T < 0 {
				ps[e.I] = nil
			}
		case "reset":
			t.ResetGradContext(e.B)
		case "bp":
			// nothing arrives at untracked and spent tensors
			if err := giveGradient(t, fill(uint64(k), ref.Prod(t.Shape())), e.H); err != nil {
				return fmt.Errorf("event %d: %v", k, err)
			}
		case "up":
			before := append([]tensor.Tensor{}, ps...)
			var err error
			switch {
			case ps[e.I] == nil:
				err = mustReject(opt[e.O], &ps[e.I], "a nil tensor")
			case ps[e.I].Gradient() == nil:
				err = mustReject(opt[e.O], &ps[e.I], "a tensor without a gradient")
			default:
				if err = checkUpdate(opt[e.O], &ps[e.I], float64(c.LR[e.O])); err == nil {
					_, v, er := lib.Read(ps[e.I])
					if er != nil {
						return er
					}
					all, vals = append(all, ps[e.I]), append(vals, v)
					done++
				}
			}
			if err != nil {
				return fmt.Errorf("event %d: %v", k, err)
			}
			for i := range ps {
				if i != e.I && ps[i] != before[i] {
					return fmt.Errorf("event %d: updating pointer %d changed pointer %d", k, e.I, i)
				}
			}
		}
	}
	for i, t := range all {
		if !allFinite(vals[i]) {
			continue
		}
		if err := lib.CheckBits(fmt.Sprintf("tensor %d at the end", i), t, t.Shape(), vals[i]); err != nil {
			return err
		}
	}
	if done > 1 {
		x.NonTrivial()
	}
	x.Label("updates %d", done)
	return nil
}

func C17() *eng.Prop {
	o := progOpts{maxSteps: 8, maxElems: 24, maxRank: 5, compare: true, explicitB: true}
	return &eng.Prop{
		ID:   "C17",
		Rule: "a case is non-trivial when at least one tensor with a gradient was updated and every element compared with w - lr*g",
		Parts: []eng.AnyPart{
			eng.Part[SGDCase]{Name: "update sequences", Quick: 60000, Thorough: 1500000, Gen: genSGD(40), Check: checkSGD},
			eng.Part[SGDCase]{Name: "huge tensors", Quick: 40, Thorough: 1500, Gen: eng.Huge(genSGD(140000)), Check: checkSGD},
			eng.Part[SGDCase]{Name: "large tensors", Quick: 600, Thorough: 15000, Gen: eng.Large(genSGD(50000)), Check: checkSGD},
			eng.Part[SGDLong]{Name: "long histories of one optimizer", Quick: 300, Thorough: 4000, Gen: genSGDLong(3000), Check: checkSGDLong},
			eng.Part[SGDPtrs]{Name: "pointers, tensors put back", Quick: 40000, Thorough: 1500000, Gen: genSGDPtrs, Check: checkSGDPtrs},
			eng.Part[SGDProg]{Name: "gradients of programs", Quick: 40000, Thorough: 800000, Gen: func(s *eng.Src) SGDProg {
				c := SGDProg{P: genProg(s, o), Nil: s.Chance(1, 6)}
				c.LR = lib.F1(eng.Pick(s, rates))
				if s.Bool() {
					c.LR = lib.F1(s.Nice())
				}
				return c
			}, Check: checkSGDProg},
		},
		Assumptions: []string{
			"elements for which lr*g or w - lr*g leaves the range of float64 are not judged; infinite weights or gradients follow IEEE arithmetic",
			"the tolerance of two ulps admits a fused multiply-subtract",
		},
	}
}
