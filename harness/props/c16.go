package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// FEv is one event in the life of an FC layer.
type FEv struct {
	K  string  `json:"k"` // fwd, bp, set, field, ptr, sgd, rows
	X  lib.L   `json:"x,omitempty"`
	G  lib.FL  `json:"g,omitempty"`
	V  lib.FL  `json:"v,omitempty"`
	P  int     `json:"p,omitempty"` // 0 weight, 1 bias
	Q  int     `json:"q,omitempty"` // which of the fetched Weights() slices
	TW bool    `json:"tw,omitempty"`
	TB bool    `json:"tb,omitempty"`
	NR bool    `json:"nr,omitempty"` // no reset before the back-propagation
	LR float64 `json:"lr,omitempty"`
	Si bool    `json:"si,omitempty"` // input through layers.Input
	Up bool    `json:"up,omitempty"` // the input is an intermediate
}

type FCCase struct {
	In   int    `json:"in"`
	Out  int    `json:"out"`
	WI   string `json:"wi,omitempty"` // initializers: "", custom, full, uniform, ...
	BI   string `json:"bi,omitempty"`
	W    lib.FL `json:"w"`
	B    lib.FL `json:"b"`
	Ev   []FEv  `json:"ev"`
	Lit  bool   `json:"lit,omitempty"`  // struct literal instead of NewFC
	Twin bool   `json:"twin,omitempty"` // a second layer from the same config
}

// givenInit is a custom initializer with fixed values.
type givenInit struct {
	v     []float64
	track bool
	got   *[][]int
}

func (g givenInit) Init(shape []int) (tensor.Tensor, error) {
	*g.got = append(*g.got, append([]int{}, shape...))
	return lib.Build([]int{len(g.v)}, g.v, g.track)
}

var fcInits = []string{"", "custom", "full", "uniform", "normal", "heu", "hen", "xu", "xn"}

func (c FCCase) initer(k string, v []float64, got *[][]int) (layers.Initializer, error) {
	switch k {
	case "custom":
		return givenInit{v, true, got}, nil
	case "full":
		return initializers.NewFull(&initializers.FullConfig{Value: v[0]}), nil
	case "uniform":
		return initializers.NewUniform(nil)
	case "normal":
		return initializers.NewNormal(nil)
	case "heu":
		return initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: c.In})
	case "hen":
		return initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: c.In})
	case "xu":
		return initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: c.In, FanOut: c.Out})
	case "xn":
		return initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: c.In, FanOut: c.Out})
	}
	return nil, nil
}

func genFC(maxB, maxF, maxO, maxEv int) func(s *eng.Src) FCCase {
	return func(s *eng.Src) FCCase {
		dim := func(m int) int {
			if s.Chance(1, 4) {
				return s.Size(1, m)
			}
			return s.Range(1, min(m, 4))
		}
		hot := 0
		if s.Big { // one long dimension
			hot = s.Range(1, 3)
			maxB, maxF, maxO := 12, 12, 12
			switch hot {
			case 1:
				maxB = 2000
			case 2:
				maxF = 2000
			default:
				maxO = 2000
			}
			if s.Floor > 0 {
				l := []int{0, 2, 2, 2}
				l[hot] = 140000
				return genFCof(s, dim, func(k int) int { return l[k] }, maxEv, hot)
			}
			return genFCof(s, dim, func(k int) int { return []int{0, maxB, maxF, maxO}[k] }, maxEv, hot)
		}
		return genFCof(s, dim, func(k int) int { return []int{0, maxB, maxF, maxO}[k] }, maxEv, 0)
	}
}

func genFCof(s *eng.Src, dim0 func(int) int, lim func(int) int, maxEv, hot int) FCCase {
	dim := func(k int) int {
		if k == hot {
			return s.Size(1, lim(k))
		}
		return dim0(lim(k))
	}
	c := FCCase{In: dim(2), Out: dim(3)}
	vals := func(n int) []float64 {
		switch s.Weighted(5, 1, 1) {
		case 1:
			return s.Floats(n, func(s *eng.Src) float64 { return math.Ldexp(s.Nice(), s.Range(0, 60)-30) })
		case 2:
			return make([]float64, n)
		}
		return s.NiceN(n)
	}
	c.W, c.B = vals(c.Out), vals(c.Out)
	c.WI, c.BI = "custom", "custom"
	if s.Chance(1, 3) {
		c.WI, c.BI = eng.Pick(s, fcInits), eng.Pick(s, fcInits)
	}
	c.Lit = s.Chance(1, 8)
	c.Twin = s.Chance(1, 4)
	n := s.Range(1, maxEv)
	input := func() lib.L {
		b := dim(1)
		f := c.In
		return lib.L{S: []int{b, f}, V: vals(b * f), T: s.Bool()}
	}
	for i := 0; i < n; i++ {
		var e FEv
		switch s.Weighted(3, 4, 3, 1, 1, 2, 2) {
		case 0:
			e = FEv{K: "fwd", X: input(), Si: s.Chance(1, 4)}
		case 1:
			e = FEv{K: "bp", X: input(), TW: s.Chance(5, 6), TB: s.Chance(5, 6), Si: s.Chance(1, 6), Up: s.Chance(1, 4)}
			e.NR = i == 0 && s.Bool()
			e.G = vals(e.X.S[0] * c.Out)
		case 2:
			e = FEv{K: "set", P: s.Intn(2), Q: s.Intn(4), V: vals(c.Out), TW: s.Bool()}
		case 3:
			e = FEv{K: "field", P: s.Intn(2), V: vals(c.Out), TW: s.Bool()}
		case 4:
			e = FEv{K: "ptr"}
		case 5:
			e = FEv{K: "sgd", P: s.Intn(2), Q: s.Intn(4), LR: eng.Pick(s, []float64{0.1, 1, -0.5, 0.01})}
		default:
			e = FEv{K: "rows", X: input(), P: s.Intn(1000), V: vals(c.In)}
		}
		c.Ev = append(c.Ev, e)
	}
	return c
}

// fcValue is the affine map with a rounding allowance.
func fcValue(sh []int, x, w, b []float64) (y, tol []float64) {
	N, F, O := sh[0], sh[1], len(w)
	y, tol = make([]float64, N*O), make([]float64, N*O)
	for n := 0; n < N; n++ {
		row := x[n*F : (n+1)*F]
		s, a := ref.Stat("Sum", row), 0.0
		for _, v := range row {
			a += math.Abs(v)
		}
		for o := 0; o < O; o++ {
			y[n*O+o] = w[o]*s + b[o]
			tol[n*O+o] = float64(F+8)*2*eps*math.Abs(w[o])*a + 4*eps*math.Abs(b[o]) + 1e-300
		}
	}
	return y, tol
}

func checkFCVal(y lib.Tensor, sh []int, x, w, b []float64) error {
	want, tol := fcValue(sh, x, w, b)
	return lib.CheckNear("FC", y, []int{sh[0], len(w)}, want, func(p int) float64 { return tol[p] })
}

func checkFC(c FCCase, x *eng.Ctx) error {
	var got [][]int
	wi, err := c.initer(c.WI, c.W, &got)
	if err != nil {
		return err
	}
	bi, err := c.initer(c.BI, c.B, &got)
	if err != nil {
		return err
	}
	cf := &layers.FCConfig{Inputs: c.In, Outputs: c.Out}
	if wi != nil || bi != nil {
		cf.Initializers = map[string]layers.Initializer{}
		if wi != nil {
			cf.Initializers["Weight"] = wi
		}
		if bi != nil {
			cf.Initializers["Bias"] = bi
		}
	}
	var fc *layers.FC
	if c.Lit {
		fc = &layers.FC{}
		if fc.Weight, err = lib.Build([]int{c.Out}, c.W, true); err != nil {
			return err
		}
		if fc.Bias, err = lib.Build([]int{c.Out}, c.B, true); err != nil {
			return err
		}
	} else {
		if fc, err = layers.NewFC(cf); err != nil || fc == nil {
			return fmt.Errorf("NewFC failed on a valid config: %v", err)
		}
		for _, g := range got {
			if !ref.EqShape(g, []int{c.Out}) {
				return fmt.Errorf("NewFC: custom initializer was asked for shape %v, want [%d]", g, c.Out)
			}
		}
	}
	_, w, err := lib.Read(fc.Weight)
	if err != nil {
		return err
	}
	_, b, err := lib.Read(fc.Bias)
	if err != nil {
		return err
	}
	if len(w) != c.Out || len(b) != c.Out {
		return fmt.Errorf("NewFC: parameters have shapes %v and %v, want [%d]", fc.Weight.Shape(), fc.Bias.Shape(), c.Out)
	}
	if !c.Lit {
		if c.WI == "custom" && !sameVals(w, c.W) || c.BI == "custom" && !sameVals(b, c.B) {
			return fmt.Errorf("NewFC: the parameters are %v and %v, not what the custom initializers returned (%v and %v)", w, b, c.W, c.B)
		}
		if c.WI == "full" && (w[0] != c.W[0] || w[c.Out-1] != c.W[0]) || c.BI == "full" && (b[0] != c.B[0] || b[c.Out-1] != c.B[0]) {
			return fmt.Errorf("NewFC: a Full initializer was not used: %v %v", w, b)
		}
		if c.BI == "" && maxAbs(b) != 0 {
			return fmt.Errorf("NewFC: default bias is %v, want zeros", b)
		}
		if c.WI == "" || c.WI == "xu" {
			r := math.Sqrt(6 / float64(c.In+c.Out))
			if maxAbs(w) > r || maxAbs(w) == 0 {
				return fmt.Errorf("NewFC: default weights %v are outside the Xavier range +-%v", w, r)
			}
		}
	}
	var twin *layers.FC
	var tw, tb []float64
	if c.Twin && !c.Lit {
		if twin, err = layers.NewFC(cf); err != nil {
			return fmt.Errorf("NewFC failed on a valid config used again: %v", err)
		}
		if _, tw, err = lib.Read(twin.Weight); err != nil {
			return err
		}
		if _, tb, err = lib.Read(twin.Bias); err != nil {
			return err
		}
	}
	spoil(fc.Weights())
	ptrs := [][]layers.Weight{fc.Weights()}
	param := [2][]float64{w, b}
	field := [2]*tensor.Tensor{&fc.Weight, &fc.Bias}
	// the slot of a parameter in a Weights() slice, by the pointer
	slot := func(q, p int) (*tensor.Tensor, error) {
		ws := ptrs[q%len(ptrs)]
		if len(ws) != 2 {
			return nil, fmt.Errorf("Weights: %d entries, want 2", len(ws))
		}
		for _, e := range ws {
			if e.Value == nil {
				return nil, fmt.Errorf("Weights: nil pointer")
			}
			if !e.Trainable {
				return nil, fmt.Errorf("Weights: a parameter is not trainable")
			}
		}
		return ws[p].Value, nil
	}
	var graded [2]bool
	for k, e := range c.Ev {
		what := fmt.Sprintf("event %d (%s)", k, e.K)
		mk := func() (lib.Tensor, lib.Tensor, error) {
			t, err := lib.Build(e.X.S, e.X.V, e.X.T)
			if err != nil {
				return nil, nil, err
			}
			in := t
			if e.Up {
				if in, err = t.Scale(2).Reshape([]int{e.X.S[0], e.X.S[1]}); err != nil {
					return nil, nil, fmt.Errorf("upstream: %v", err)
				}
			}
			if e.Si {
				il := layers.NewInput()
				il.SeedFunc = func() tensor.Tensor { return in }
				got, err := forward("Input", il)
				if err != nil {
					return nil, nil, err
				}
				if got != in {
					return nil, nil, fmt.Errorf("Input: Forward returned another tensor than its seed")
				}
			}
			return t, in, nil
		}
		switch e.K {
		case "ptr":
			spoil(fc.Weights()) // the slice is the caller's
			ptrs = append(ptrs, fc.Weights())
		case "set", "field":
			t, err := lib.Build([]int{c.Out}, e.V, e.TW)
			if err != nil {
				return err
			}
			if e.K == "field" {
				*field[e.P] = t
			} else {
				p, err := slot(e.Q, e.P)
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				*p = t
			}
			param[e.P] = e.V
			graded[e.P] = false
		case "sgd":
			if !graded[e.P] {
				continue
			}
			p, err := slot(e.Q, e.P)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			_, g, err := lib.Read((*p).Gradient())
			if err != nil {
				return err
			}
			if err := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: e.LR}).Update(p); err != nil {
				return fmt.Errorf("%s: Update of a parameter failed: %v", what, err)
			}
			_, v, err := lib.Read(*field[e.P])
			if err != nil {
				return err
			}
			for i := range v {
				d := e.LR * g[i]
				if err := lib.Near(v[i], param[e.P][i]-d, 4*eps*(math.Abs(d)+math.Abs(param[e.P][i]))); err != nil {
					return fmt.Errorf("%s: parameter %d element %d after Update %v", what, e.P, i, err)
				}
			}
			param[e.P] = v
			graded[e.P] = false
			x.Label("update through the pointer")
		case "fwd":
			_, in, err := mk()
			if err != nil {
				return err
			}
			y, err := forward("FC", fc, in)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := checkFCVal(y, e.X.S, e.X.V, param[0], param[1]); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case "rows":
			// all rows but one are changed: the one must stay, bit by bit
			N, F := e.X.S[0], e.X.S[1]
			r := e.P % N
			y1, err := fcRows(fc, e.X.S, e.X.V)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			v := append([]float64{}, e.X.V...)
			for i := range v {
				if i/F != r {
					v[i] = e.V[i%F]*3 - v[i] + 1e3
				}
			}
			y2, err := fcRows(fc, e.X.S, v)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			O := c.Out
			if !sameVals(y1[r*O:(r+1)*O], y2[r*O:(r+1)*O]) {
				return fmt.Errorf("rows: output row %d changed from %v to %v when only other input rows changed", r, y1[r*O:(r+1)*O], y2[r*O:(r+1)*O])
			}
			y3, err := fcRows(fc, []int{1, F}, v[r*F:(r+1)*F])
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			_, tol := fcValue([]int{1, F}, v[r*F:(r+1)*F], param[0], param[1])
			for o := range y3 {
				if err := lib.Near(y3[o], y1[r*O+o], 2*tol[o]); err != nil {
					return fmt.Errorf("rows: output of a row alone %v", err)
				}
			}
		case "bp":
			tr := [2]bool{e.TW, e.TB}
			if e.NR && k == 0 {
				tr = [2]bool{true, true} // as the initializers deliver them
			} else {
				for i := range field {
					(*field[i]).ResetGradContext(tr[i])
				}
			}
			leaf, in, err := mk()
			if err != nil {
				return err
			}
			y, err := forward("FC", fc, in)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			xv := e.X.V
			if e.Up {
				xv = append([]float64{}, xv...)
				for i := range xv {
					xv[i] *= 2
				}
			}
			if err := checkFCVal(y, e.X.S, xv, param[0], param[1]); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			N, F, O := e.X.S[0], e.X.S[1], c.Out
			gt, err := lib.Build([]int{N, O}, e.G, false)
			if err != nil {
				return err
			}
			root, err := y.Mul(gt)
			if err != nil {
				return err
			}
			if err := tensor.BackPropagate(root); err != nil {
				return fmt.Errorf("%s: BackPropagate failed: %v", what, err)
			}
			gw, gb, gx := make([]float64, O), make([]float64, O), make([]float64, N*F)
			aw, ab, ax := make([]float64, O), make([]float64, O), make([]float64, N*F)
			for n := 0; n < N; n++ {
				row := xv[n*F : (n+1)*F]
				s, a := ref.Stat("Sum", row), 0.0
				for _, v := range row {
					a += math.Abs(v)
				}
				gs, ga := 0.0, 0.0
				for o := 0; o < O; o++ {
					g := e.G[n*O+o]
					gw[o] += g * s
					aw[o] += math.Abs(g) * a
					gb[o] += g
					ab[o] += math.Abs(g)
					gs += g * param[0][o]
					ga += math.Abs(g * param[0][o])
				}
				for d := 0; d < F; d++ {
					gx[n*F+d], ax[n*F+d] = gs, ga
				}
			}
			f := 8 * eps * float64(N+F+O+8)
			if e.Up {
				for i := range gx {
					gx[i] *= 2
					ax[i] *= 2
				}
			}
			for _, q := range []struct {
				name string
				t    lib.Tensor
				on   bool
				sh   []int
				v, a []float64
			}{{"Weight", fc.Weight, tr[0], []int{O}, gw, aw}, {"Bias", fc.Bias, tr[1], []int{O}, gb, ab}, {"the input", leaf, e.X.T, []int{N, F}, gx, ax}} {
				g := q.t.Gradient()
				if !q.on {
					if g != nil {
						return fmt.Errorf("%s: %s is untracked but has a gradient", what, q.name)
					}
					continue
				}
				if g == nil {
					return fmt.Errorf("%s: %s has no gradient", what, q.name)
				}
				if err := lib.CheckNear("FC gradient of "+q.name, g, q.sh, q.v, func(p int) float64 { return f*q.a[p] + 1e-300 }); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
			}
			graded = tr
			x.NonTrivial()
			x.Label("gradients compared")
		}
		// the pointers address the fields, the values are the model's
		for q := range ptrs {
			for p := 0; p < 2; p++ {
				s, err := slot(q, p)
				if err != nil {
					return err
				}
				if *s != *field[p] {
					return fmt.Errorf("%s: Weights()[%d] obtained earlier does not address the layer's parameter any more", what, p)
				}
				if err := lib.CheckBits(fmt.Sprintf("%s: parameter %d", what, p), *s, []int{c.Out}, param[p]); err != nil {
					return err
				}
			}
		}
		x.Label("event %s", e.K)
	}
	if twin != nil {
		// nothing that was done with the first layer concerns the second
		for _, t := range []lib.Tensor{twin.Weight, twin.Bias} {
			if t.Gradient() != nil {
				return fmt.Errorf("second layer: a parameter has a gradient although only the first layer was used")
			}
		}
		if err := lib.CheckBits("weight of a second layer made from the same config", twin.Weight, []int{c.Out}, tw); err != nil {
			return err
		}
		if err := lib.CheckBits("bias of a second layer made from the same config", twin.Bias, []int{c.Out}, tb); err != nil {
			return err
		}
		y, err := fcRows(twin, []int{1, c.In}, fill(77, c.In))
		if err != nil {
			return fmt.Errorf("second layer: %v", err)
		}
		want, tol := fcValue([]int{1, c.In}, fill(77, c.In), tw, tb)
		for i := range y {
			if err := lib.Near(y[i], want[i], tol[i]); err != nil {
				return fmt.Errorf("second layer: output %d %v", i, err)
			}
		}
		in := fill(77, c.In)
		t, err := lib.Build([]int{1, c.In}, in, false)
		if err != nil {
			return err
		}
		z, err := forward("FC", twin, t)
		if err != nil {
			return fmt.Errorf("second layer: %v", err)
		}
		if err := tensor.BackPropagate(z); err != nil {
			return fmt.Errorf("second layer: BackPropagate failed: %v", err)
		}
		sum, abs := 0.0, 0.0
		for _, v := range in {
			sum += v
			abs += math.Abs(v)
		}
		gw, gb := make([]float64, c.Out), make([]float64, c.Out)
		for i := range gw {
			gw[i], gb[i] = sum, 1
		}
		if err := lib.CheckNear("second layer: gradient of the weight", twin.Weight.Gradient(), []int{c.Out}, gw, func(int) float64 { return 1e-12 * (1 + abs) }); err != nil {
			return err
		}
		if err := lib.CheckNear("second layer: gradient of the bias", twin.Bias.Gradient(), []int{c.Out}, gb, func(int) float64 { return 1e-12 }); err != nil {
			return err
		}
	}
	return nil
}

func spoil(ws []layers.Weight) {
	for i := range ws {
		ws[i] = layers.Weight{}
	}
}

func fcRows(fc *layers.FC, sh []int, v []float64) ([]float64, error) {
	t, err := lib.Build(sh, v, false)
	if err != nil {
		return nil, err
	}
	y, err := forward("FC", fc, t)
	if err != nil {
		return nil, err
	}
	if err := lib.CheckShape("FC", y, []int{sh[0], fc.Weight.Shape()[0]}); err != nil {
		return nil, err
	}
	_, o, err := lib.Read(y)
	return o, err
}

func enumFC(th bool, yield func(FCCase) bool) {
	m := 4
	if th {
		m = 7
	}
	for n := 1; n <= m; n++ {
		for f := 1; f <= m; f++ {
			for o := 1; o <= m; o++ {
				for k := 0; k < 4; k++ {
					c := FCCase{In: f, Out: o, WI: "custom", BI: "custom", W: fill(uint64(o+k), o), B: fill(uint64(o+50+k), o)}
					X := lib.L{S: []int{n, f}, V: fill(uint64(n*f+k), n*f), T: k%2 == 0}
					c.Ev = []FEv{
						{K: "fwd", X: X},
						{K: "bp", X: X, G: fill(uint64(n*o+9), n*o), TW: true, TB: true, NR: true, Up: k == 2},
						{K: "set", P: k % 2, V: fill(uint64(o+99), o), TW: true},
						{K: "bp", X: X, G: fill(uint64(n*o+19), n*o), TW: k != 1, TB: k != 3},
						{K: "sgd", P: 1 - k%2, LR: 0.25},
						{K: "rows", X: X, P: k, V: fill(3, f)},
					}
					c.Ev[1].NR = false
					if k == 0 {
						c.Ev = c.Ev[1:]
						c.Ev[0].NR = true
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func C16() *eng.Prop {
	return &eng.Prop{
		ID:   "C16",
		Rule: "a case is non-trivial when, in a history of one layer, at least one forward pass was back-propagated and the gradients of weight, bias and input compared with the derivatives of the formula",
		Parts: []eng.AnyPart{
			eng.Part[FCCase]{Name: "all small layers", Enum: enumFC, Check: checkFC},
			eng.Part[FCCase]{Name: "random histories", Quick: 150000, Thorough: 1200000, Gen: genFC(12, 10, 10, 10), Check: checkFC},
			eng.Part[FCCase]{Name: "long histories", Quick: 300, Thorough: 8000, Gen: genFC(3, 3, 3, 400), Check: checkFC},
			eng.Part[FCCase]{Name: "one long dimension", Quick: 400, Thorough: 10000, Gen: eng.Large(genFC(0, 0, 0, 4)), Check: checkFC},
			eng.Part[FCCase]{Name: "one huge dimension", Quick: 40, Thorough: 1500, Gen: eng.Huge(genFC(0, 0, 0, 3)), Check: checkFC},
			eng.Part[FCCase]{Name: "large layers", Quick: 300, Thorough: 6000, Gen: genFC(60, 60, 60, 5), Check: checkFC},
			eng.Part[TiedFC]{Name: "tied parameters", Quick: 40000, Thorough: 400000, Gen: genTied, Check: checkTied},
			roundsPart("fc", false, 50000, 1000000),
			longRoundsPart("fc", false, 150, 6000),
		},
		Assumptions: []string{
			"Weights()[0] is the weight and Weights()[1] the bias, as for the exported struct fields",
			"row independence is judged bit by bit, the affine map within the rounding error of summation",
		},
	}
}
