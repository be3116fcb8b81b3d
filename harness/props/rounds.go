package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// Rounds is the life of a few component objects and a few tensors: in every
// round the same objects are applied to the same tensors again (in the same or
// other combinations), the results back-propagated, and the tensors reset,
// replaced or left spent.
type Rounds struct {
	Kind string  `json:"kind"` // loss, act, fc
	Loss string  `json:"loss,omitempty"`
	N    int     `json:"n"` // component objects (loss)
	A    []Act   `json:"a,omitempty"`
	FC   []RFC   `json:"fc,omitempty"`
	Lv   []lib.L `json:"leaves"`
	Ev   []REv   `json:"ev"`
	Val  bool    `json:"val,omitempty"` // judge values only
}

type RFC struct {
	W lib.FL `json:"w"`
	B lib.FL `json:"b"`
}

// REv is a round (K empty), the replacement of a leaf ("new") or of a layer's
// parameter ("set"), or an optimizer step on a parameter ("sgd").
type REv struct {
	K     string  `json:"k,omitempty"`
	Calls []RCall `json:"calls,omitempty"`
	Bp    bool    `json:"bp,omitempty"`
	Reset []int   `json:"reset,omitempty"`
	I     int     `json:"i,omitempty"`
	P     int     `json:"p,omitempty"`
	L     lib.L   `json:"l,omitempty"`
	Rej   []RRej  `json:"rej,omitempty"`
}

// RRej is an invalid use of component C before call At of a round: with K the
// kind of the fault, and leaves I and J as the sound part of the arguments.
type RRej struct {
	At, C, K, I, J int
}

// RCall applies component C to leaf or call result In (and target T).
type RCall struct {
	C  int    `json:"c"`
	In int    `json:"in"`
	T  int    `json:"t,omitempty"`
	Gr int    `json:"gr,omitempty"` // group: each has its own root
	G  lib.FL `json:"g"`
}

func genRounds(kind string, val bool, maxElems, minRounds, maxRounds int) func(s *eng.Src) Rounds {
	return func(s *eng.Src) Rounds {
		c := Rounds{Kind: kind, Val: val}
		var sh [][]int
		nl := s.Range(1, 4)
		var value func(i int, sh []int) lib.FL
		var in, out int
		switch kind {
		case "loss":
			c.Loss = eng.Pick(s, lossKinds)
			c.N = s.Range(1, 2)
			nl = s.Range(2, 5)
			S := lossShape(s, c.Loss, max(1, maxElems/4), 4)
			for range nl {
				sh = append(sh, S)
			}
			value = func(i int, sh []int) lib.FL {
				wide := s.Chance(1, 6)
				return s.Floats(ref.Prod(sh), func(s *eng.Src) float64 {
					if i%2 == 1 {
						return clipV(drawTarget(s, false), 0, 1)
					}
					if c.Loss == "mse" && wide {
						return s.Nice()
					}
					return drawPred(s, wide)
				})
			}
		case "act":
			S := s.Shape(0, 4, maxElems)
			for i := range nl {
				if i > 0 && s.Chance(1, 5) {
					S = s.Shape(len(S), len(S), maxElems)
				}
				sh = append(sh, S)
			}
			for range s.Range(1, 3) {
				a := drawAct(s, len(S))
				if math.Abs(a.M) > 1000 {
					a.M = 2
				}
				c.A = append(c.A, a)
			}
			value = func(i int, sh []int) lib.FL {
				mode := s.Intn(3)
				return s.Floats(ref.Prod(sh), func(s *eng.Src) float64 {
					switch mode {
					case 0:
						return s.Nice()
					case 1:
						return float64(s.Intn(3)) - 1
					}
					return clipV(drawX(s, 700), -700, 700)
				})
			}
		case "fc":
			lim := max(2, maxElems/6)
			in, out = s.Range(1, min(4, lim)), s.Range(1, min(4, lim))
			if s.Bool() {
				out = in
			}
			if s.Chance(1, 10) {
				in = s.Size(1, lim)
			}
			for range nl {
				sh = append(sh, []int{s.Range(1, 4), in})
			}
			if s.Bool() {
				for i := range sh {
					sh[i] = sh[0]
				}
			}
			for range s.Range(1, 2) {
				c.FC = append(c.FC, RFC{s.NiceN(out), s.NiceN(out)})
			}
			c.N = in
			value = func(i int, sh []int) lib.FL { return s.NiceN(ref.Prod(sh)) }
		}
		for i := range nl {
			c.Lv = append(c.Lv, lib.L{S: sh[i], V: value(i, sh[i]), T: s.Chance(3, 4)})
		}
		nc := max(len(c.A), len(c.FC))
		if kind == "loss" {
			nc = c.N
		}
		var last REv
		for range s.Range(minRounds, maxRounds) {
			switch s.Weighted(8, 1, 1, 1) {
			case 1:
				i := s.Intn(nl)
				c.Ev = append(c.Ev, REv{K: "new", I: i, L: lib.L{S: sh[i], V: value(i, sh[i]), T: s.Chance(3, 4)}})
				continue
			case 2:
				if kind == "fc" {
					c.Ev = append(c.Ev, REv{K: "set", I: s.Intn(nc), P: s.Intn(2), L: lib.L{S: []int{out}, V: s.NiceN(out), T: s.Chance(3, 4)}})
					continue
				}
			case 3:
				if kind == "fc" {
					c.Ev = append(c.Ev, REv{K: "sgd", I: s.Intn(nc), P: s.Intn(2)})
					continue
				}
			}
			e := REv{Bp: !s.Chance(1, 6)}
			if last.Calls != nil && s.Bool() { // the same round again
				e.Calls = append(e.Calls, last.Calls...)
			} else {
				two := s.Chance(1, 3)
				for k := range s.Range(1, 4) {
					a := RCall{C: s.Intn(nc), In: s.Intn(nl)}
					if two {
						a.Gr = s.Intn(2)
					}
					osh := sh[a.In]
					switch kind {
					case "loss":
						a.In = s.Intn((nl+1)/2) * 2
						a.T = s.Intn(nl/2)*2 + 1
						osh = nil
					case "act", "fc":
						chain := kind == "act" || in == out
						if k > 0 && chain && s.Bool() {
							j := s.Intn(k)
							if e.Calls[j].Gr == a.Gr {
								a.In = nl + j
							}
						}
						osh = sh[baseLeaf(e.Calls, nl, a.In)]
						if kind == "fc" {
							osh = []int{osh[0], out}
						}
					}
					a.G = s.NiceN(ref.Prod(osh))
					e.Calls = append(e.Calls, a)
				}
			}
			np := nl + 2*len(c.FC)
			style := s.Weighted(5, 2)
			for range np {
				r := 1
				if style == 1 {
					r = s.Weighted(1, 4, 2)
				}
				e.Reset = append(e.Reset, r)
			}
			last = e
			if s.Chance(1, 4) {
				for range s.Range(1, 3) {
					e.Rej = append(e.Rej, RRej{s.Intn(len(e.Calls)), s.Intn(nc), s.Intn(9), s.Intn(nl), s.Intn(nl)})
				}
			}
			c.Ev = append(c.Ev, e)
		}
		return c
	}
}

func baseLeaf(calls []RCall, nl, i int) int {
	for i >= nl {
		i = calls[i-nl].In
	}
	return i
}

// rleaf is the model of a tensor that lives through the rounds.
type rleaf struct {
	t       lib.Tensor
	sh      []int
	v       []float64
	tracked bool
	spent   bool
	busy    bool      // has tracked results that were never back-propagated
	any     bool      // its gradient is not specified
	g       []float64 // the gradient it has to keep
	name    string
}

// span is an interval per element.
type span struct{ lo, hi []float64 }

func (a *span) add(lo, hi []float64) {
	for i := range lo {
		t := 8 * eps * (math.Abs(a.lo[i]) + math.Abs(a.hi[i]) + math.Abs(lo[i]) + math.Abs(hi[i]))
		if math.IsInf(t, 0) {
			t = 0
		}
		a.lo[i] += lo[i] - t
		a.hi[i] += hi[i] + t
	}
}

func newSpan(n int) *span { return &span{make([]float64, n), make([]float64, n)} }

func checkRounds(c Rounds, x *eng.Ctx) error {
	nl := len(c.Lv)
	var lv []*rleaf
	for i, l := range c.Lv {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return err
		}
		lv = append(lv, &rleaf{t: t, sh: l.S, v: l.V, tracked: l.T, name: fmt.Sprintf("leaf %d", i)})
	}
	type lossObj interface {
		Compute(yp, yt tensor.Tensor) (tensor.Tensor, error)
	}
	var lossO []lossObj
	var actO []forwarder
	var fcO []*layers.FC
	for range c.N {
		if c.Kind == "loss" {
			lossO = append(lossO, lossOf(c.Loss))
		}
	}
	for _, a := range c.A {
		f, err := a.make()
		if err != nil {
			return fmt.Errorf("%v: %v", a, err)
		}
		actO = append(actO, f)
	}
	for i, f := range c.FC {
		var got [][]int
		fc, err := layers.NewFC(&layers.FCConfig{Inputs: c.N, Outputs: len(f.W), Initializers: map[string]layers.Initializer{"Weight": givenInit{f.W, true, &got}, "Bias": givenInit{f.B, true, &got}}})
		if err != nil {
			return fmt.Errorf("NewFC failed on a valid config: %v", err)
		}
		fcO = append(fcO, fc)
		lv = append(lv,
			&rleaf{t: fc.Weight, sh: []int{len(f.W)}, v: f.W, tracked: true, name: fmt.Sprintf("weight of layer %d", i)},
			&rleaf{t: fc.Bias, sh: []int{len(f.B)}, v: f.B, tracked: true, name: fmt.Sprintf("bias of layer %d", i)})
	}
	par := func(i, p int) int { return nl + 2*i + p }
	used := 0
	seen := map[string]bool{}
	for k, e := range c.Ev {
		what := fmt.Sprintf("event %d", k)
		switch e.K {
		case "new":
			t, err := lib.Build(e.L.S, e.L.V, e.L.T)
			if err != nil {
				return err
			}
			lv[e.I] = &rleaf{t: t, sh: e.L.S, v: e.L.V, tracked: e.L.T, name: lv[e.I].name}
			continue
		case "set":
			t, err := lib.Build(e.L.S, e.L.V, e.L.T)
			if err != nil {
				return err
			}
			j := par(e.I, e.P)
			*fcO[e.I].Weights()[e.P].Value = t
			lv[j] = &rleaf{t: t, sh: e.L.S, v: e.L.V, tracked: e.L.T, name: lv[j].name}
			continue
		case "sgd":
			j := par(e.I, e.P)
			m := lv[j]
			if !m.spent || m.g == nil {
				continue
			}
			w := fcO[e.I].Weights()[e.P].Value
			if err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: 0.25}).Update(w); err != nil {
				return fmt.Errorf("%s: Update of the %s failed: %v", what, m.name, err)
			}
			_, v, err := lib.Read(*w)
			if err != nil {
				return err
			}
			for i := range v {
				d := 0.25 * m.g[i]
				if err := lib.Near(v[i], m.v[i]-d, 4*eps*(math.Abs(d)+math.Abs(m.v[i]))); err != nil {
					return fmt.Errorf("%s: %s element %d after Update %v", what, m.name, i, err)
				}
			}
			(*w).ResetGradContext(true)
			lv[j] = &rleaf{t: *w, sh: m.sh, v: v, tracked: true, name: m.name}
			continue
		}
		// forward
		nc := len(e.Calls)
		res := make([]lib.Tensor, nc)
		val := make([][]float64, nc)
		tracked, dirty := make([]bool, nc), make([]bool, nc)
		shape := make([][]int, nc)
		// the leaves a call uses directly
		direct := func(a RCall) []int {
			var l []int
			if a.In < nl {
				l = append(l, a.In)
			}
			if c.Kind == "loss" {
				l = append(l, a.T)
			}
			if c.Kind == "fc" {
				l = append(l, par(a.C, 0), par(a.C, 1))
			}
			return l
		}
		input := func(i int) (lib.Tensor, []int, []float64) {
			if i < nl {
				return lv[i].t, lv[i].sh, lv[i].v
			}
			return res[i-nl], shape[i-nl], val[i-nl]
		}
		reject := func(r RRej) error {
			a, b := lv[r.I], lv[r.J]
			// of another rank
			odd, err := lib.Build(append([]int{1}, a.sh...), a.v, r.J%2 == 0)
			if err != nil {
				return err
			}
			var y lib.Tensor
			if c.Kind == "loss" {
				args := [][2]lib.Tensor{{nil, b.t}, {a.t, nil}, {odd, b.t}, {b.t, odd}, {nil, nil}, {odd, odd}}[r.K%6]
				y, err = lossO[r.C].Compute(args[0], args[1])
			} else {
				var f forwarder
				args := [][]lib.Tensor{{}, {nil}, {a.t, b.t}, {a.t, nil}, {a.t, a.t}, {a.t, b.t, a.t}}[r.K%6]
				if c.Kind == "act" {
					f = actO[r.C]
					if d := c.A[r.C]; d.K == "softmax" && r.K == 5 {
						// too few dimensions
						sh := make([]int, d.D)
						for i := range sh {
							sh[i] = 1
						}
						if odd, err = lib.Build(sh, []float64{0.5}, false); err != nil {
							return err
						}
						args = []lib.Tensor{odd}
					}
				} else {
					fc := fcO[r.C]
					f = fc
					w, b := fc.Weight, fc.Bias
					defer func() { fc.Weight, fc.Bias = w, b }()
					switch r.K {
					case 3:
						fc.Weight, args = nil, []lib.Tensor{a.t}
					case 4:
						fc.Bias, args = odd, []lib.Tensor{a.t}
					case 5:
						args = []lib.Tensor{odd}
					case 6:
						fc.Bias, args = nil, []lib.Tensor{a.t}
					case 7:
						fc.Weight, args = odd, []lib.Tensor{a.t}
					case 8: // one bias too many
						n := w.NElems() + 1
						if fc.Bias, err = lib.Build([]int{n}, make([]float64, n), true); err != nil {
							return err
						}
						args = []lib.Tensor{a.t}
					}
				}
				y, err = f.Forward(args...)
			}
			if err == nil || y != nil {
				return fmt.Errorf("invalid call (kind %d, leaves %d and %d) of component %d: result %v, error %v", r.K, r.I, r.J, r.C, y != nil, err)
			}
			x.Label("rejected calls")
			return nil
		}
		for q, a := range e.Calls {
			w := fmt.Sprintf("%s, call %d", what, q)
			for _, r := range e.Rej {
				if r.At == q {
					if err := reject(r); err != nil {
						return fmt.Errorf("%s: before it: %v", w, err)
					}
				}
			}
			t, sh, v := input(a.In)
			var err error
			for _, i := range direct(a) {
				tracked[q] = tracked[q] || lv[i].tracked
				dirty[q] = dirty[q] || lv[i].spent
			}
			if a.In >= nl {
				tracked[q] = tracked[q] || tracked[a.In-nl]
				dirty[q] = dirty[q] || dirty[a.In-nl]
			}
			tracked[q] = tracked[q] && !dirty[q]
			switch c.Kind {
			case "loss":
				y, err := lossO[a.C].Compute(t, lv[a.T].t)
				if err != nil || y == nil {
					return fmt.Errorf("%s: %s: Compute failed on valid input: %v", w, c.Loss, err)
				}
				lvv, tol := lossValue(c.Loss, sh, v, lv[a.T].v)
				if err := lib.CheckNear(w+": "+c.Loss, y, nil, []float64{lvv}, func(int) float64 { return tol }); err != nil {
					return err
				}
				res[q] = y
			case "act":
				if maxAbs(v) > actLimit(c.A[a.C].K) {
					x.Skip()
					return nil
				}
				if res[q], err = forward(w+": "+c.A[a.C].String(), actO[a.C], t); err != nil {
					return err
				}
				if err := checkActValue(c.A[a.C], sh, v, res[q]); err != nil {
					return fmt.Errorf("%s: %v", w, err)
				}
			case "fc":
				if res[q], err = forward(w+": FC", fcO[a.C], t); err != nil {
					return err
				}
				if err := checkFCVal(res[q], sh, v, lv[par(a.C, 0)].v, lv[par(a.C, 1)].v); err != nil {
					return fmt.Errorf("%s: %v", w, err)
				}
			}
			if shape[q], val[q], err = lib.Read(res[q]); err != nil {
				return err
			}
			key := fmt.Sprint(a.C, a.In, a.T)
			if a.In < nl && seen[key] {
				x.Label("the same object on the same tensor again")
			}
			seen[key] = a.In < nl
		}
		// a root per group
		var alive [2]bool
		var root [2]lib.Tensor
		for g := range root {
			var r lib.Tensor
			tr, di := false, false
			for q, a := range e.Calls {
				if a.Gr != g {
					continue
				}
				gt, err := lib.Build(shape[q], a.G, false)
				if err != nil {
					return err
				}
				y, err := res[q].Mul(gt)
				if err == nil && len(shape[q]) > 0 {
					y, err = lib.Apply(ref.Op{K: "Reshape", S: []int{len(a.G)}}, y)
				}
				if err == nil && len(shape[q]) > 0 {
					y, err = y.SumAlong(0)
				}
				if err == nil && r != nil {
					y, err = r.Add(y)
				}
				if err != nil {
					return fmt.Errorf("%s: weighting the result of call %d: %v", what, q, err)
				}
				r = y
				tr, di = tr || tracked[q], di || dirty[q]
			}
			root[g] = r
			alive[g] = r != nil && tr && !di && e.Bp
			if r != nil && e.Bp {
				if err := tensor.BackPropagate(r); err != nil {
					return fmt.Errorf("%s: BackPropagate failed: %v", what, err)
				}
			}
		}
		// expected gradients, from the library's own gradients of the results
		acc := make([]*span, len(lv)+nc)
		at := func(i, n int) *span {
			if acc[i] == nil {
				acc[i] = newSpan(n)
			}
			return acc[i]
		}
		reached := make([]bool, len(lv))
		anyG := make([]bool, len(lv))
		for q := nc - 1; q >= 0; q-- {
			a := e.Calls[q]
			_, sh, v := input(a.In)
			if !alive[a.Gr] || !tracked[q] {
				if res[q].Gradient() != nil {
					return fmt.Errorf("%s: the result of call %d has a gradient although it took part in no back-propagation", what, q)
				}
				if tracked[q] {
					for _, i := range direct(a) {
						lv[i].busy = lv[i].busy || lv[i].tracked
					}
				}
				continue
			}
			gt := res[q].Gradient()
			if gt == nil {
				return fmt.Errorf("%s: the result of call %d has no gradient", what, q)
			}
			n := len(val[q])
			sp := at(len(lv)+q, n)
			slo, shi := make([]float64, n), make([]float64, n)
			for i, g := range a.G {
				slo[i], shi[i] = g-4*eps*math.Abs(g), g+4*eps*math.Abs(g)
			}
			sp.add(slo, shi)
			if err := lib.CheckShape(fmt.Sprintf("%s: gradient of the result of call %d", what, q), gt, shape[q]); err != nil {
				return err
			}
			_, up, err := lib.Read(gt)
			if err != nil {
				return err
			}
			if !c.Val {
				if err := within(fmt.Sprintf("%s: gradient of the result of call %d", what, q), up, sp); err != nil {
					return err
				}
			}
			to := func(i int, lo, hi []float64) {
				if i < nl {
					if !lv[i].tracked {
						return
					}
					reached[i] = true
				} else if i-nl < nc && !tracked[i-nl] {
					return
				} else {
					i += len(lv) - nl
				}
				at(i, len(lo)).add(lo, hi)
			}
			toLeaf := func(i int, lo, hi []float64) {
				if lv[i].tracked {
					reached[i] = true
					at(i, len(lo)).add(lo, hi)
				}
			}
			switch c.Kind {
			case "loss":
				g, tol := lossGrad(c.Loss, sh, v, lv[a.T].v)
				lo, hi := make([]float64, len(g)), make([]float64, len(g))
				for i := range g {
					t := tol[i]*math.Abs(up[0]) + 4*eps*math.Abs(g[i]*up[0]) + 1e-300
					lo[i], hi[i] = g[i]*up[0]-t, g[i]*up[0]+t
					if c.Loss != "mse" && (v[i] == clipE || v[i] == 1-clipE) {
						lo[i], hi[i] = math.Inf(-1), math.Inf(1)
					}
				}
				to(a.In, lo, hi)
				if lv[a.T].tracked {
					reached[a.T], anyG[a.T] = true, true
				}
			case "act":
				lo, hi := c.A[a.C].actGrad(sh, v, up)
				to(a.In, lo, hi)
			case "fc":
				N, F := sh[0], sh[1]
				W := lv[par(a.C, 0)].v
				O := len(W)
				f := 8 * eps * float64(N+F+O+8)
				wl, bl, xl := newSpan(O), newSpan(O), newSpan(N*F)
				gw, aw, gb, ab := make([]float64, O), make([]float64, O), make([]float64, O), make([]float64, O)
				for n := 0; n < N; n++ {
					s, m := 0.0, 0.0
					for _, y := range v[n*F : n*F+F] {
						s += y
						m += math.Abs(y)
					}
					gx, ax := 0.0, 0.0
					for o := 0; o < O; o++ {
						g := up[n*O+o]
						gw[o] += g * s
						aw[o] += math.Abs(g) * m
						gb[o] += g
						ab[o] += math.Abs(g)
						gx += g * W[o]
						ax += math.Abs(g * W[o])
					}
					for d := 0; d < F; d++ {
						xl.lo[n*F+d], xl.hi[n*F+d] = gx-f*ax-1e-300, gx+f*ax+1e-300
					}
				}
				for o := 0; o < O; o++ {
					wl.lo[o], wl.hi[o] = gw[o]-f*aw[o]-1e-300, gw[o]+f*aw[o]+1e-300
					bl.lo[o], bl.hi[o] = gb[o]-f*ab[o]-1e-300, gb[o]+f*ab[o]+1e-300
				}
				toLeaf(par(a.C, 0), wl.lo, wl.hi)
				toLeaf(par(a.C, 1), bl.lo, bl.hi)
				to(a.In, xl.lo, xl.hi)
			}
		}
		for i, m := range lv {
			g := m.t.Gradient()
			w := fmt.Sprintf("%s: %s", what, m.name)
			if !reached[i] {
				if (g != nil) != (m.g != nil || m.any) {
					return fmt.Errorf("%s %s a gradient although no back-propagation of this round reached it", w, map[bool]string{true: "has got", false: "has lost"}[g != nil])
				}
				if m.g != nil && !c.Val {
					if err := lib.CheckBits("gradient kept by "+w, g, m.sh, m.g); err != nil {
						return err
					}
				}
				continue
			}
			m.spent = true
			if anyG[i] { // the gradient of a target is not specified
				m.any = true
				continue
			}
			if g == nil {
				return fmt.Errorf("%s has no gradient after the back-propagation", w)
			}
			_, gv, err := lib.Read(g)
			if err != nil {
				return err
			}
			if err := lib.CheckShape("gradient of "+w, g, m.sh); err != nil {
				return err
			}
			m.g = gv
			if !c.Val {
				if err := within("gradient of "+w, gv, acc[i]); err != nil {
					return err
				}
			}
			used++
		}
		// resets
		for i, m := range lv {
			r := e.Reset[i]
			if m.any && r == 0 {
				r = 1
			}
			if r == 0 || m.busy {
				if m.any {
					// cannot be used further: its role as a target would retire the predictions
					t, err := lib.Build(m.sh, m.v, m.tracked)
					if err != nil {
						return err
					}
					lv[i] = &rleaf{t: t, sh: m.sh, v: m.v, tracked: m.tracked, name: m.name}
				}
				continue
			}
			if m.tracked || m.spent || r == 1 {
				m.t.ResetGradContext(r == 1)
				*m = rleaf{t: m.t, sh: m.sh, v: m.v, tracked: r == 1, name: m.name}
				if m.t.Gradient() != nil {
					return fmt.Errorf("%s: %s has a gradient after its reset", what, m.name)
				}
			}
		}
	}
	for _, m := range lv {
		if err := lib.CheckBits(m.name+" at the end", m.t, m.sh, m.v); err != nil {
			return err
		}
	}
	if used > 0 || c.Val {
		x.NonTrivial()
	}
	x.Label("%d gradients observed", min(used, 6))
	return nil
}

func within(what string, g []float64, sp *span) error {
	if len(g) != len(sp.lo) {
		return fmt.Errorf("%s has %d elements, want %d", what, len(g), len(sp.lo))
	}
	for i := range g {
		if !finite(g[i]) || !(g[i] >= sp.lo[i] && g[i] <= sp.hi[i]) {
			return fmt.Errorf("%s: element %d is %v, want a value in [%v, %v]", what, i, g[i], sp.lo[i], sp.hi[i])
		}
	}
	return nil
}

func roundsPart(kind string, val bool, quick, thorough int) eng.AnyPart {
	return eng.Part[Rounds]{Name: "component histories", Quick: quick, Thorough: thorough, Gen: genRounds(kind, val, 24, 2, 6), Check: checkRounds}
}

// longRoundsPart has the same objects serve for hundreds of rounds.
func longRoundsPart(kind string, val bool, quick, thorough int) eng.AnyPart {
	return eng.Part[Rounds]{Name: "long component histories", Quick: quick, Thorough: thorough, Gen: genRounds(kind, val, 6, 60, 300), Check: checkRounds}
}
