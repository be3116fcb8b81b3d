package props

import (
	"errors"
	"fmt"
	"math"
	"slices"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// TArg is a tensor argument: a tensor of shape S, nil, or a foreign
// implementation of the Tensor interface.
type TArg struct {
	S []int  `json:"s"`
	K string `json:"k,omitempty"` // "", nil, foreign, same (object as the first)
	T bool   `json:"t,omitempty"`
	V int    `json:"v,omitempty"` // style of the values; no precondition depends on it
}

// Ragged is nested data of a given depth; nil and empty slices are kept apart.
type Ragged struct {
	Depth int             `json:"depth"`
	V     [][][][]float64 `json:"v"`
}

// Call is one call of a public entry point with arbitrary arguments.
type Call struct {
	Fn   string   `json:"fn"`
	T    []TArg   `json:"t,omitempty"`
	D    []int    `json:"d,omitempty"`
	DNil bool     `json:"dnil,omitempty"`
	N    int      `json:"n,omitempty"`
	M    int      `json:"m,omitempty"`
	F    lib.FL   `json:"f,omitempty"`
	R    [][2]int `json:"r,omitempty"`
	Conf int      `json:"conf,omitempty"`
	Rag  *Ragged  `json:"rag,omitempty"`
	O    []int    `json:"o,omitempty"`

	env *callEnv // objects kept from call to call; nil: every call makes its own
}

// callEnv holds the component objects and the tensors that the calls of a
// sequence share.
type callEnv struct {
	obj map[string]any
	ts  map[string]lib.Tensor
}

// kept returns the object of that kind and configuration which earlier calls
// of the sequence have used, or makes (and keeps) it. fresh: it was made now.
func kept[T any](c Call, cfg string, mk func() (T, error)) (o T, fresh bool, err error) {
	key := fmt.Sprintf("%T %s %s", o, c.Fn, cfg)
	if c.env != nil {
		if x, ok := c.env.obj[key]; ok {
			return x.(T), false, nil
		}
	}
	if o, err = mk(); err == nil && c.env != nil {
		c.env.obj[key] = o
	}
	return o, true, err
}

// Foreign is a Tensor that the library has not created.
type Foreign struct{ tensor.Tensor }

func (a TArg) build() (lib.Tensor, error) {
	if a.K == "nil" {
		return nil, nil
	}
	v := fill(31, ref.Prod(a.S))
	for i := range v {
		switch a.V {
		case 1:
			v[i] = 0
		case 2:
			v[i] = 1
		case 3:
			v[i] *= 1000
		case 4:
			v[i] = []float64{math.NaN(), math.Inf(1), -1, math.Inf(-1)}[i%4]
		case 5:
			v[i] = float64(i % 2)
		case 6:
			v[i] = float64(i%2*2-1) * 3
		case 7:
			v[i] *= 1e300
		case 8:
			v[i] = -math.Abs(v[i]) - 4
		case 9:
			v[i] = float64(i) * 1e-320
		default:
			v[i] = math.Abs(v[i])/8 + 0.1
		}
	}
	t, err := lib.Build(a.S, v, a.T)
	if a.K == "foreign" && err == nil {
		return Foreign{t}, nil
	}
	return t, err
}

func confOf(k int) (*tensor.Config, bool) {
	switch k {
	case 0:
		return nil, true
	case 1:
		return lib.Conf(false), true
	case 2:
		return lib.Conf(true), true
	case 3:
		return &tensor.Config{}, false
	case 4:
		return &tensor.Config{Device: 2, GradTrack: true}, false
	case 5:
		return &tensor.Config{Device: -1}, false
	}
	return &tensor.Config{Device: 100}, false
}

func positive(d []int) bool {
	for _, x := range d {
		if x <= 0 {
			return false
		}
	}
	return true
}

// tensorOf passes the data on; depth 4 uses V itself, depth 3
// V[0], depth 2 V[0][0] and so on.
func (r *Ragged) tensorOf(conf *tensor.Config) (lib.Tensor, error) {
	switch r.Depth {
	case 1:
		return tensor.TensorOf(r.V[0][0][0], conf)
	case 2:
		return tensor.TensorOf(r.V[0][0], conf)
	case 3:
		return tensor.TensorOf(r.V[0], conf)
	}
	return tensor.TensorOf(r.V, conf)
}

// shape of the nested data: equal lengths at every level.
func (r *Ragged) shape() (s []int, ok bool) {
	ok = true
	set := func(level, n int) {
		for len(s) <= level {
			s = append(s, -1)
		}
		if n == 0 || (s[level] >= 0 && s[level] != n) {
			ok = false
		}
		if s[level] < 0 {
			s[level] = n
		}
	}
	row := func(level int, a []float64) { set(level, len(a)) }
	mat := func(level int, a [][]float64) {
		set(level, len(a))
		for _, b := range a {
			row(level+1, b)
		}
	}
	cub := func(level int, a [][][]float64) {
		set(level, len(a))
		for _, b := range a {
			mat(level+1, b)
		}
	}
	switch r.Depth {
	case 1:
		row(0, r.V[0][0][0])
	case 2:
		mat(0, r.V[0][0])
	case 3:
		cub(0, r.V[0])
	default:
		set(0, len(r.V))
		for _, b := range r.V {
			cub(1, b)
		}
	}
	return s, ok && len(s) == r.Depth
}

// customInit is a user-supplied initializer.
type customInit struct{ kind, n int }

func (c customInit) Init(shape []int) (tensor.Tensor, error) {
	switch c.kind {
	case 3:
		return nil, errors.New("refused")
	case 4:
		return nil, nil
	case 5:
		return tensor.Ones([]int{c.n, 1}, lib.Conf(true))
	case 6:
		return tensor.Ones([]int{c.n + 1}, lib.Conf(true))
	case 8:
		return tensor.Ones([]int{}, lib.Conf(true))
	}
	return tensor.Full(shape, 0.5, lib.Conf(true))
}

func initKind(k, n int) (layers.Initializer, bool, bool) { // value, present, valid
	switch k {
	case 0:
		return nil, false, true
	case 1:
		return nil, true, false
	case 2:
		return initializers.NewFull(nil), true, true
	case 7:
		u, _ := initializers.NewUniform(nil)
		return u, true, true
	case 9:
		return customInit{9, n}, true, true
	}
	return customInit{k, n}, true, false
}

// outcome of a call: what is expected, and what came out.
type outcome struct {
	ok     bool  // expected to succeed
	shape  []int // expected shape (when hasT)
	hasT   bool  // the call returns a tensor
	anyOK  bool  // success is not decided by the property
	y      lib.Tensor
	isNil  bool // result is nil
	err    error
	noErrT bool // no error result
	bp     bool // back-propagate the result afterwards
}

func isOpName(k string) bool {
	switch k {
	case "Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Dot", "MatMul", "Concat":
		return true
	}
	return ref.IsUnary(k) || ref.IsReduce(k) || ref.IsArith(k) || ref.IsCompare(k) || ref.IsElMM(k)
}

// operand builds a tensor argument, or takes the one of an earlier call.
func (c Call) operand(a TArg) (t lib.Tensor, err error) {
	if c.env == nil || a.K != "" || c.Fn == "stats" || c.Fn == "SGD" {
		return a.build()
	}
	key := fmt.Sprint(a)
	if t, ok := c.env.ts[key]; ok {
		return t, nil
	}
	if t, err = a.build(); err == nil {
		c.env.ts[key] = t
	}
	return t, err
}

// perform runs the call. Everything happens under eng.Guard.
func (c Call) perform() (o outcome, err error) {
	ts := make([]lib.Tensor, len(c.T))
	bad := false // a nil or foreign tensor
	foreign := false
	for i := range c.T {
		if i > 0 && c.T[i].K == "same" {
			// the tensor object of the first argument once more
			c.T = append([]TArg{}, c.T...)
			c.T[i], ts[i] = c.T[0], ts[0]
		} else if ts[i], err = c.operand(c.T[i]); err != nil {
			return o, err
		}
		a := c.T[i]
		bad = bad || a.K != ""
		foreign = foreign || a.K == "foreign"
	}
	dims := append([]int{}, c.D...)
	if c.DNil && len(c.D) == 0 {
		dims = nil
	}
	f := func(i int) float64 {
		if i < len(c.F) {
			return c.F[i]
		}
		return 0.5
	}
	opt := func(i int) int {
		if i < len(c.O) {
			return c.O[i]
		}
		return 0
	}
	nilArg := func(i int) bool { return c.T[i].K == "nil" }
	o.hasT = true
	conf, confOK := confOf(c.Conf)
	res := func(y lib.Tensor, err error) { o.y, o.err = y, err }

	if isOpName(c.Fn) && c.Fn != "Concat" {
		op := ref.Op{K: c.Fn, A: f(0), D: c.N, S: c.D, R: c.R}
		shapes := make([][]int, len(ts))
		for i := range ts {
			shapes[i] = c.T[i].S
		}
		o.shape, o.ok = ref.OutShape(op, shapes...)
		if bad {
			o.ok = false
		}
		o.bp = true
		if c.DNil && len(c.D) == 0 && c.Fn == "Reshape" {
			res(ts[0].Reshape(nil))
		} else if c.DNil && len(c.D) == 0 && c.Fn == "Broadcast" {
			res(ts[0].Broadcast(nil))
		} else {
			res(lib.Raw(op, ts...))
		}
		return o, nil
	}

	softDim := func() int {
		if opt(0) == 1 {
			return 0
		}
		return c.N
	}
	one := func(valid func(s []int) bool, shape func(s []int) []int) bool {
		if foreign {
			o.anyOK = true
		}
		if len(ts) != 1 || nilArg(0) || !valid(c.T[0].S) {
			return false
		}
		o.ok, o.shape = true, shape(c.T[0].S)
		return true
	}
	same := func(s []int) []int { return s }
	always := func(s []int) bool { return true }
	pair := func(rank int) bool {
		if foreign {
			o.anyOK = true
		}
		return !nilArg(0) && !nilArg(1) && len(c.T[0].S) == rank && ref.EqShape(c.T[0].S, c.T[1].S)
	}

	switch c.Fn {
	case "Full":
		o.ok, o.shape = confOK && positive(c.D), c.D
		res(tensor.Full(dims, f(0), conf))
	case "Zeros":
		o.ok, o.shape = confOK && positive(c.D), c.D
		res(tensor.Zeros(dims, conf))
	case "Ones":
		o.ok, o.shape = confOK && positive(c.D), c.D
		res(tensor.Ones(dims, conf))
	case "Eye":
		o.ok, o.shape = confOK && c.N > 0, []int{c.N, c.N}
		res(tensor.Eye(c.N, conf))
	case "RandU":
		o.ok, o.shape = confOK && positive(c.D) && f(0) < f(1), c.D
		res(tensor.RandU(dims, f(0), f(1), conf))
	case "RandN":
		o.ok, o.shape = confOK && positive(c.D) && f(1) > 0, c.D
		res(tensor.RandN(dims, f(0), f(1), conf))
	case "TensorOf":
		if c.Rag == nil || c.Rag.Depth == 0 {
			o.ok, o.shape = confOK, []int{}
			res(tensor.TensorOf(f(0), conf))
			break
		}
		s, k := c.Rag.shape()
		o.ok, o.shape = confOK && k, s
		res(c.Rag.tensorOf(conf))
	case "Concat":
		shapes := make([][]int, len(ts))
		for i := range ts {
			shapes[i] = c.T[i].S
		}
		o.bp = true
		if len(ts) >= 2 && !bad {
			o.shape, o.ok = ref.OutShape(ref.Op{K: "Concat", D: c.N}, shapes...)
		}
		arg := ts
		if len(ts) == 0 && c.DNil {
			arg = nil
		}
		res(tensor.Concat(arg, c.N))
	case "BackPropagate":
		o.hasT = false
		o.ok = !bad
		o.err = tensor.BackPropagate(ts[0])
	case "At":
		o.hasT = false
		o.ok = len(c.D) == len(c.T[0].S)
		for i, x := range c.D {
			if o.ok && (x < 0 || x >= c.T[0].S[i]) {
				o.ok = false
			}
		}
		_, o.err = ts[0].At(dims...)
	case "Equals":
		o.hasT = false
		o.ok = !bad && ref.EqShape(c.T[0].S, c.T[1].S)
		_, o.err = ts[0].Equals(ts[1])
	case "stats":
		o.hasT, o.ok = false, true
		t := ts[0]
		if k := t.NElems(); k != ref.Prod(c.T[0].S) {
			return o, fmt.Errorf("NElems of a tensor of shape %v is %d", c.T[0].S, k)
		}
		_, _, _, _, _, _, _ = t.Sum(), t.Max(), t.Min(), t.Avg(), t.Var(), t.Std(), t.Mean()
		if !ref.EqShape(t.Shape(), c.T[0].S) {
			return o, fmt.Errorf("Shape of a tensor of shape %v is %v", c.T[0].S, t.Shape())
		}
		if t.Gradient() != nil {
			return o, fmt.Errorf("a fresh tensor has a gradient")
		}
		if t.GradContext() == nil {
			return o, fmt.Errorf("a fresh tensor has no gradient context")
		}
		t.ResetGradContext(c.N > 0)
		if err := tensor.BackPropagate(t); err != nil {
			return o, fmt.Errorf("BackPropagate after ResetGradContext failed: %v", err)
		}
		if (t.Gradient() != nil) != (c.N > 0) {
			return o, fmt.Errorf("gradient after ResetGradContext(%v) and BackPropagate: %v", c.N > 0, t.Gradient())
		}

	// components
	case "NewFC":
		o.hasT = false
		var cf *layers.FCConfig
		w, hasW, okW := initKind(opt(1), c.M)
		b, hasB, okB := initKind(opt(2), c.M)
		if opt(0) == 0 {
			cf = &layers.FCConfig{Inputs: c.N, Outputs: c.M}
			if hasW || hasB || opt(3) == 1 {
				cf.Initializers = map[string]layers.Initializer{}
			}
			if hasW {
				cf.Initializers["Weight"] = w
			}
			if hasB {
				cf.Initializers["Bias"] = b
			}
		}
		o.ok = cf != nil && c.N > 0 && c.M > 0 && okW && okB
		fc, err := layers.NewFC(cf)
		o.err = err
		o.isNil = fc == nil
		if err == nil && fc != nil {
			ws := fc.Weights()
			if len(ws) != 2 || ws[0].Value == nil || ws[1].Value == nil || *ws[0].Value == nil || *ws[1].Value == nil {
				return o, fmt.Errorf("NewFC: Weights() does not hold two tensors")
			}
			for _, w := range ws {
				if !ref.EqShape((*w.Value).Shape(), []int{c.M}) {
					return o, fmt.Errorf("NewFC: a weight has shape %v, want [%d]", (*w.Value).Shape(), c.M)
				}
			}
		}
	case "FC.Forward":
		fc := &layers.FC{}
		okW := true
		if opt(0) == 0 {
			if fc, _, err = kept(c, fmt.Sprint(c.M), func() (*layers.FC, error) {
				return layers.NewFC(&layers.FCConfig{Inputs: 3, Outputs: c.M})
			}); err != nil {
				return o, err
			}
			// what is put in place of the weights below is undone afterwards
			defer func(w, b lib.Tensor) { fc.Weight, fc.Bias = w, b }(fc.Weight, fc.Bias)
			for i, p := range []*lib.Tensor{&fc.Weight, &fc.Bias} {
				switch opt(1 + i) {
				case 1:
					*p = nil
					okW = false
				case 2:
					*p, _ = tensor.Ones(nil, nil)
					okW = false
				case 3:
					*p, _ = tensor.Ones([]int{c.M, 1}, nil)
					okW = false
				}
			}
			if opt(1) == 4 && opt(2) == 0 {
				fc.Weight, _ = tensor.Ones([]int{c.M + 1}, nil)
				okW = false
			} else if opt(2) == 4 && opt(1) == 0 {
				fc.Bias, _ = tensor.Ones([]int{c.M + 1}, nil)
				okW = false
			}
		} else {
			okW = false
		}
		one(func(s []int) bool { return len(s) == 2 }, func(s []int) []int { return []int{s[0], c.M} })
		o.ok = o.ok && okW
		o.bp = true
		res(fc.Forward(ts...))
	case "Input.Forward":
		in, _, _ := kept(c, "", func() (*layers.Input, error) { return layers.NewInput(), nil })
		in.SeedFunc = nil
		var seed lib.Tensor
		if opt(0) == 1 {
			if seed, err = (TArg{S: []int{2, 1}}).build(); err != nil {
				return o, err
			}
			in.SeedFunc = func() tensor.Tensor { return seed }
		}
		o.ok, o.shape = opt(0) == 1 && len(ts) == 0, []int{2, 1}
		res(in.Forward(ts...))
	case "Relu":
		one(always, same)
		o.bp = true
		ac, _, _ := kept(c, "", func() (*activations.Relu, error) { return activations.NewRelu(), nil })
		res(ac.Forward(ts...))
	case "LeakyRelu":
		one(always, same)
		var cf *activations.LeakyReluConfig
		if opt(0) == 0 {
			cf = &activations.LeakyReluConfig{M: f(0)}
		}
		o.bp = true
		ac, _, _ := kept(c, fmt.Sprint(f(0), opt(0)), func() (*activations.LeakyRelu, error) { return activations.NewLeakyRelu(cf), nil })
		res(ac.Forward(ts...))
	case "Sigmoid":
		one(always, same)
		o.bp = true
		ac, _, _ := kept(c, "", func() (*activations.Sigmoid, error) { return activations.NewSigmoid(), nil })
		res(ac.Forward(ts...))
	case "TanhAct":
		one(always, same)
		o.bp = true
		ac, _, _ := kept(c, "", func() (*activations.Tanh, error) { return activations.NewTanh(), nil })
		res(ac.Forward(ts...))
	case "NewSoftmax":
		o.hasT = false
		var cf *activations.SoftmaxConfig
		if opt(0) == 0 {
			cf = &activations.SoftmaxConfig{Dim: c.N}
		}
		o.ok = cf == nil || c.N >= 0
		sm, err := activations.NewSoftmax(cf)
		o.err, o.isNil = err, sm == nil
	case "Softmax":
		var cf *activations.SoftmaxConfig
		if opt(0) == 0 {
			cf = &activations.SoftmaxConfig{Dim: c.N}
		}
		sm, _, err := kept(c, fmt.Sprint(c.N, opt(0)), func() (*activations.Softmax, error) { return activations.NewSoftmax(cf) })
		if err != nil {
			return o, fmt.Errorf("NewSoftmax with Dim %d failed: %v", c.N, err)
		}
		one(func(s []int) bool { return len(s) > softDim() }, same)
		o.bp = true
		res(sm.Forward(ts...))
	case "MSE", "BCE", "CE":
		rank := 1
		if c.Fn == "CE" {
			rank = 2
		}
		o.ok, o.shape = pair(rank), []int{}
		o.bp = true
		switch c.Fn {
		case "MSE":
			l, _, _ := kept(c, "", func() (*losses.MSE, error) { return losses.NewMSE(), nil })
			res(l.Compute(ts[0], ts[1]))
		case "BCE":
			l, _, _ := kept(c, "", func() (*losses.BCE, error) { return losses.NewBCE(), nil })
			res(l.Compute(ts[0], ts[1]))
		default:
			l, _, _ := kept(c, "", func() (*losses.CE, error) { return losses.NewCE(), nil })
			res(l.Compute(ts[0], ts[1]))
		}
	case "Accuracy":
		o.hasT = false
		o.ok = pair(1)
		m, fresh, _ := kept(c, "", func() (*metrics.Accuracy, error) { return metrics.NewAccuracy(), nil })
		if r, err := m.Result(); err != nil || !(r >= 0 && r <= 1) || fresh && r != 0 {
			return o, fmt.Errorf("Result before the call is %v, %v (new object: %v)", r, err, fresh)
		}
		o.err = m.Accumulate(ts[0], ts[1])
		if r, err := m.Result(); err != nil || !(r >= 0 && r <= 1) {
			return o, fmt.Errorf("Result is %v, %v", r, err)
		}
	case "SGD":
		o.hasT = false
		var cf *optimizers.SGDConfig
		if opt(1) == 1 {
			cf = &optimizers.SGDConfig{LearningRate: f(0)}
		}
		sg, _, _ := kept(c, fmt.Sprint(f(0), opt(1)), func() (*optimizers.SGD, error) { return optimizers.NewSGD(cf), nil })
		var t lib.Tensor
		p := &t
		switch opt(0) {
		case 0:
			p = nil
		case 1:
		default:
			a := c.T[0]
			a.T = opt(0) != 2
			if t, err = a.build(); err != nil {
				return o, err
			}
			if opt(0) >= 4 {
				if err := tensor.BackPropagate(t.Scale(2)); err != nil {
					return o, err
				}
				o.ok = true
			}
			if opt(0) == 5 {
				t.ResetGradContext(true)
				o.ok = false
			}
		}
		before := t
		o.err = sg.Update(p)
		if o.err != nil && p != nil && *p != before {
			return o, fmt.Errorf("a rejected Update has replaced the tensor")
		}
		if o.err == nil && (t == nil || !ref.EqShape(t.Shape(), c.T[0].S)) {
			return o, fmt.Errorf("Update has not stored a tensor of the same shape")
		}
	case "NewFull", "NewUniform", "NewNormal", "NewHeUniform", "NewHeNormal", "NewXavierUniform", "NewXavierNormal":
		var in layers.Initializer
		var e error
		nilc := opt(0) == 1
		okC := true
		switch c.Fn {
		case "NewFull":
			var cf *initializers.FullConfig
			if !nilc {
				cf = &initializers.FullConfig{Value: f(0)}
			}
			in = initializers.NewFull(cf)
		case "NewUniform":
			var cf *initializers.UniformConfig
			if !nilc {
				cf = &initializers.UniformConfig{Lower: f(0), Upper: f(1)}
				okC = f(0) < f(1)
			}
			x, err := initializers.NewUniform(cf)
			in, e, o.isNil = x, err, x == nil
		case "NewNormal":
			var cf *initializers.NormalConfig
			if !nilc {
				cf = &initializers.NormalConfig{Mean: f(0), StdDev: f(1)}
				okC = f(1) > 0
			}
			x, err := initializers.NewNormal(cf)
			in, e, o.isNil = x, err, x == nil
		case "NewHeUniform":
			var cf *initializers.HeUniformConfig
			if !nilc {
				cf = &initializers.HeUniformConfig{FanIn: c.N}
			}
			okC = !nilc && c.N > 0
			x, err := initializers.NewHeUniform(cf)
			in, e, o.isNil = x, err, x == nil
		case "NewHeNormal":
			var cf *initializers.HeNormalConfig
			if !nilc {
				cf = &initializers.HeNormalConfig{FanIn: c.N}
			}
			okC = !nilc && c.N > 0
			x, err := initializers.NewHeNormal(cf)
			in, e, o.isNil = x, err, x == nil
		case "NewXavierUniform":
			var cf *initializers.XavierUniformConfig
			if !nilc {
				cf = &initializers.XavierUniformConfig{FanIn: c.N, FanOut: c.M}
			}
			okC = !nilc && c.N > 0 && c.M > 0
			x, err := initializers.NewXavierUniform(cf)
			in, e, o.isNil = x, err, x == nil
		default:
			var cf *initializers.XavierNormalConfig
			if !nilc {
				cf = &initializers.XavierNormalConfig{FanIn: c.N, FanOut: c.M}
			}
			okC = !nilc && c.N > 0 && c.M > 0
			x, err := initializers.NewXavierNormal(cf)
			in, e, o.isNil = x, err, x == nil
		}
		if e == nil && okC && !o.isNil {
			in, _, _ = kept(c, fmt.Sprint(c.N, c.M, f(0), f(1), nilc), func() (layers.Initializer, error) { return in, nil })
		}
		if (e == nil) != okC {
			return o, fmt.Errorf("%s with N=%d M=%d F=%v nil=%v: error %v, valid %v", c.Fn, c.N, c.M, c.F, nilc, e, okC)
		}
		if (e != nil) != o.isNil {
			return o, fmt.Errorf("%s: error %v together with result nil=%v", c.Fn, e, o.isNil)
		}
		if e != nil {
			o.hasT, o.err = false, e
			return o, nil
		}
		o.isNil = false
		o.ok, o.shape = positive(c.D), c.D
		res(in.Init(dims))
	default:
		panic(eng.HarnessPanic{Msg: "unknown entry point " + c.Fn})
	}
	return o, nil
}

func checkCall(c Call, x *eng.Ctx) error {
	o, err := c.perform()
	if err != nil {
		return err
	}
	if !o.anyOK {
		if o.err != nil && o.ok {
			return fmt.Errorf("%s: valid arguments were rejected: %v", c.desc(), o.err)
		}
		if o.err == nil && !o.ok {
			sh := ""
			if o.y != nil {
				sh = fmt.Sprintf(" (result of shape %v)", o.y.Shape())
			}
			return fmt.Errorf("%s: invalid arguments were accepted%s", c.desc(), sh)
		}
	}
	switch {
	case o.err != nil:
		if o.y != nil {
			return fmt.Errorf("%s: a result is returned together with the error %v", c.desc(), o.err)
		}
		if o.err.Error() == "" {
			return fmt.Errorf("%s: empty error", c.desc())
		}
		x.Label("rejected")
	case o.hasT:
		if o.y == nil {
			return fmt.Errorf("%s: neither a result nor an error", c.desc())
		}
		sh, _, err := lib.Read(o.y)
		if err != nil {
			return fmt.Errorf("%s: malformed result: %v", c.desc(), err)
		}
		if !o.anyOK && !ref.EqShape(sh, o.shape) {
			return fmt.Errorf("%s: result has shape %v, want %v", c.desc(), sh, o.shape)
		}
		if o.bp {
			if err := tensor.BackPropagate(o.y); err != nil {
				return fmt.Errorf("%s: back-propagation of the result failed: %v", c.desc(), err)
			}
		}
		x.Label("accepted")
	default:
		if o.isNil {
			return fmt.Errorf("%s: neither a result nor an error", c.desc())
		}
		x.Label("accepted")
	}
	x.Label("fn " + c.Fn)
	x.NonTrivial()
	return nil
}

func (c Call) desc() string {
	s := c.Fn + "("
	for i, t := range c.T {
		if i > 0 {
			s += ", "
		}
		if t.K == "nil" {
			s += "nil"
		} else {
			s += fmt.Sprint(t.K, t.S)
		}
	}
	s += ")"
	if c.D != nil {
		s += fmt.Sprintf(" dims %v", c.D)
	}
	if c.R != nil {
		s += fmt.Sprintf(" ranges %v", c.R)
	}
	return s + fmt.Sprintf(" n=%d m=%d f=%v conf=%d o=%v", c.N, c.M, c.F, c.Conf, c.O)
}

func anyDims(s *eng.Src, lo, hi, maxProd int) []int {
	for {
		r := s.Range(lo, hi)
		d := make([]int, r)
		p := 1
		for i := range d {
			if s.Chance(1, 8) {
				d[i] = s.Range(-2, 0)
			} else {
				d[i] = s.Range(1, 6)
			}
			if d[i] > 0 {
				p *= d[i]
			}
		}
		if p <= maxProd {
			return d
		}
		return []int{2}
	}
}

func tweakShape(s *eng.Src, sh []int) []int {
	o := append([]int{}, sh...)
	switch s.Intn(5) {
	case 0:
		if len(o) > 0 {
			i := s.Intn(len(o))
			o[i]++
		}
	case 1:
		if len(o) > 0 {
			i := s.Intn(len(o))
			if o[i] > 1 {
				o[i]--
			}
		}
	case 2:
		if len(o) < 5 {
			o = append([]int{s.Range(1, 2)}, o...)
		}
	case 3:
		if len(o) > 0 {
			o = o[1:]
		}
	default:
		if len(o) > 0 {
			o[s.Intn(len(o))] = s.Range(1, 4)
		}
	}
	return o
}

var tensorOps = func() []string {
	l := append([]string{}, ref.AllDiff()...)
	return append(l, ref.Compare...)
}()

func genOpCall(s *eng.Src) Call {
	k := eng.Pick(s, tensorOps)
	c := Call{Fn: k}
	if s.Chance(1, 4) {
		// arguments at random
		n := ref.NIn(k)
		if n < 0 {
			n = s.Range(0, 4)
		}
		for i := 0; i < n; i++ {
			c.T = append(c.T, TArg{S: s.Shape(0, 5, 60), T: s.Bool()})
		}
		c.N = s.Range(-2, 6)
		c.F = lib.FL{s.Nice()}
		switch k {
		case "Slice", "Patch":
			m := s.Range(0, 4)
			for i := 0; i < m; i++ {
				c.R = append(c.R, [2]int{s.Range(-2, 6), s.Range(-2, 6)})
			}
		case "Reshape", "Broadcast":
			c.D = anyDims(s, 0, 5, 4000)
			c.DNil = s.Bool()
		}
	} else {
		var op ref.Op
		var in [][]int
		if k == "Broadcast" {
			t := s.Shape(0, 5, 60)
			op, in = ref.Op{K: k, S: t}, [][]int{s.Sub(t)}
		} else if (ref.IsArith(k) || k == "MatMul" || k == "Dot") && s.Bool() {
			cc := genExpand([]string{k}, 40)(s)
			op, in = cc.Op, [][]int{cc.Lv[0].S, cc.Lv[1].S}
		} else {
			op, in = genOpShapes(s, k, 5, 60)
		}
		c.N, c.D, c.R = op.D, op.S, op.R
		c.F = lib.FL{op.A}
		for _, sh := range in {
			c.T = append(c.T, TArg{S: sh, T: s.Bool()})
		}
		if s.Chance(3, 4) {
			switch s.Intn(4) {
			case 0:
				c.N += s.Range(-2, 2)
			case 1:
				if len(c.D) > 0 {
					i := s.Intn(len(c.D))
					c.D = append([]int{}, c.D...)
					switch s.Intn(4) {
					case 0:
						c.D[i] = s.Range(-2, 6)
					case 1:
						c.D = append(c.D, s.Range(-1, 2))
					case 2:
						c.D = append(c.D[:i], c.D[i+1:]...)
					default:
						c.D[i]++
					}
					if n := ref.Prod(c.D); n > 5000 {
						c.D = []int{5}
					}
				}
			case 2:
				if len(c.R) > 0 {
					i := s.Intn(len(c.R))
					switch s.Intn(6) {
					case 0:
						c.R[i][0]--
					case 1:
						c.R[i][1]++
					case 2:
						c.R[i][0], c.R[i][1] = c.R[i][1], c.R[i][0]
					case 3:
						c.R[i][1] = c.R[i][0]
					case 4:
						c.R = append(c.R, [2]int{s.Range(-1, 1), s.Range(0, 2)})
					default:
						c.R[i] = [2]int{c.R[i][0] + 1, c.R[i][1] + 1}
					}
				} else if k == "Slice" || k == "Patch" {
					for i := s.Range(1, 6); i > 0; i-- {
						c.R = append(c.R, [2]int{s.Range(0, 1), s.Range(0, 2)})
					}
				}
			default:
				i := s.Intn(len(c.T))
				c.T[i].S = tweakShape(s, c.T[i].S)
			}
		}
	}
	if s.Chance(1, 12) {
		extremise(s, &c)
	}
	first := 1
	if k == "Concat" {
		first = 0
	}
	if len(c.T) > first && s.Chance(1, 10) {
		i := first + s.Intn(len(c.T)-first)
		c.T[i].K = eng.Pick(s, []string{"nil", "foreign"})
	}
	if len(c.T) > 1 && s.Chance(1, 10) {
		for i := 1; i < len(c.T); i++ {
			if s.Bool() {
				c.T[i].K = "same"
			}
		}
	}
	return c
}

var extremeInts = []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1 << 32, -1 << 32, 1 << 62, math.MaxInt32, math.MinInt32, 1<<31 + 1}

// extremise puts integers at the ends of their range into the arguments, for
// Reshape such that their product modulo 2^64 is the right number of elements.
func extremise(s *eng.Src, c *Call) {
	switch c.Fn {
	case "Slice", "Patch":
		if len(c.R) == 0 {
			c.R = [][2]int{{0, 1}}
		}
		i := s.Intn(len(c.R))
		c.R[i][s.Intn(2)] = eng.Pick(s, extremeInts)
		if s.Chance(1, 3) {
			c.R[i] = [2]int{eng.Pick(s, extremeInts), eng.Pick(s, extremeInts)}
		}
	case "Reshape":
		n := uint64(ref.Prod(c.T[0].S))
		switch s.Intn(4) {
		case 0:
			c.D = []int{eng.Pick(s, extremeInts), eng.Pick(s, extremeInts)}
		case 1:
			c.D = append(append([]int{}, c.T[0].S...), math.MaxInt, math.MaxInt)
		default:
			m := s.Bits()>>uint(s.Range(1, 60)) | 1
			inv := m
			for i := 0; i < 6; i++ {
				inv *= 2 - m*inv
			}
			c.D = []int{int(m &^ (1 << 63)), int(inv * n &^ (1 << 63))}
			if m*(inv*n) != n || m>>63 != 0 || (inv*n)>>63 != 0 {
				c.D = append(c.D, math.MaxInt, math.MaxInt)
			}
		}
	case "UnSqueeze", "Squeeze", "Flatten", "Concat", "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong":
		c.N = eng.Pick(s, extremeInts)
	}
}

var specialF = []float64{0.5, -1, 0, 1, 2, 1e300, -1e300, 5e-324, math.NaN(), 1e-12, -0.5}

func genCtorCall(s *eng.Src) Call {
	c := Call{Fn: eng.Pick(s, []string{"TensorOf", "Full", "Zeros", "Ones", "Eye", "RandU", "RandN", "TensorOf", "TensorOf"})}
	c.Conf = s.Weighted(3, 3, 3, 1, 1, 1, 1)
	c.D = anyDims(s, 0, 5, 4000)
	c.DNil = s.Bool()
	c.N = s.Range(-2, 6)
	c.F = lib.FL{eng.Pick(s, specialF), eng.Pick(s, specialF)}
	if c.Fn == "RandN" && math.IsNaN(c.F[0]) {
		c.F[0] = 0
	}
	if c.Fn == "TensorOf" {
		c.Rag = genRagged(s)
	}
	return c
}

func genRagged(s *eng.Src) *Ragged {
	r := &Ragged{Depth: s.Range(0, 4)}
	d := []int{s.Range(1, 3), s.Range(1, 3), s.Range(1, 3), s.Range(1, 3)}
	for i := 0; i < 4-r.Depth; i++ {
		d[i] = 1
	}
	r.V = make([][][][]float64, d[0])
	for i := range r.V {
		r.V[i] = make([][][]float64, d[1])
		for j := range r.V[i] {
			r.V[i][j] = make([][]float64, d[2])
			for k := range r.V[i][j] {
				r.V[i][j][k] = make([]float64, d[3])
				for l := range r.V[i][j][k] {
					r.V[i][j][k][l] = float64(i*27 + j*9 + k*3 + l)
				}
			}
		}
	}
	if r.Depth == 0 {
		return r
	}
	// mutations below the outer levels that hold exactly one element
	n := s.Weighted(2, 5, 2)
	for ; n > 0; n-- {
		lvl := 4 - r.Depth + s.Intn(r.Depth)
		op := s.Intn(4)
		switch lvl {
		case 0:
			r.V = cut(s, r.V, op, 4-r.Depth > 0)
		case 1:
			if len(r.V) > 0 {
				i := s.Intn(len(r.V))
				r.V[i] = cut(s, r.V[i], op, 4-r.Depth > 1)
			}
		case 2:
			if len(r.V) > 0 {
				a := r.V[s.Intn(len(r.V))]
				if len(a) > 0 {
					j := s.Intn(len(a))
					a[j] = cut(s, a[j], op, 4-r.Depth > 2)
				}
			}
		default:
			if len(r.V) > 0 {
				a := r.V[s.Intn(len(r.V))]
				if len(a) > 0 {
					b := a[s.Intn(len(a))]
					if len(b) > 0 {
						k := s.Intn(len(b))
						b[k] = cut(s, b[k], op, false)
					}
				}
			}
		}
	}
	return r
}

func cut[T any](s *eng.Src, v []T, op int, keep bool) []T {
	if keep {
		return v
	}
	switch op {
	case 0: // one element less
		if len(v) > 0 {
			return v[:len(v)-1]
		}
	case 1: // one more
		if len(v) > 0 {
			return append(append([]T{}, v...), v[0])
		}
	case 2:
		return []T{}
	default:
		return nil
	}
	return v
}

var compFns = []string{"NewFC", "FC.Forward", "Input.Forward", "Relu", "LeakyRelu", "Sigmoid", "TanhAct", "NewSoftmax", "Softmax", "MSE", "BCE", "CE", "Accuracy", "SGD",
	"NewFull", "NewUniform", "NewNormal", "NewHeUniform", "NewHeNormal", "NewXavierUniform", "NewXavierNormal"}

func genCompCall(s *eng.Src) Call { return compCallOf(s, eng.Pick(s, compFns)) }

func compCallOf(s *eng.Src, fn string) Call {
	c := Call{Fn: fn}
	tArg := func() TArg {
		a := TArg{S: s.Shape(0, 5, 60), T: s.Bool()}
		switch s.Weighted(10, 2, 1) {
		case 1:
			a.K = "nil"
		case 2:
			a.K = "foreign"
		}
		return a
	}
	c.F = lib.FL{eng.Pick(s, specialF), eng.Pick(s, specialF)}
	c.N, c.M = s.Range(-2, 6), s.Range(-2, 6)
	switch c.Fn {
	case "NewFC":
		k := func() int { return s.Weighted(6, 1, 3, 1, 1, 1, 1, 2, 1, 2) }
		c.O = []int{s.Weighted(9, 1), k(), k(), s.Intn(2)}
		if s.Chance(3, 4) {
			c.N, c.M = s.Range(1, 4), s.Range(1, 4)
		}
	case "FC.Forward":
		c.M = s.Range(1, 5)
		c.O = []int{s.Weighted(12, 1), s.Weighted(9, 1, 1, 1, 1), s.Weighted(9, 1, 1, 1, 1)}
		if s.Chance(2, 3) {
			c.T = []TArg{{S: s.Shape(2, 2, 40), T: s.Bool()}}
			if s.Chance(1, 6) {
				c.T = append(c.T, tArg())
			}
			break
		}
		fallthrough
	case "Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax", "Input.Forward":
		n := s.Weighted(1, 6, 1, 1)
		if c.Fn == "Input.Forward" {
			n = s.Weighted(3, 1, 1)
		}
		if s.Chance(1, 12) {
			n = s.Range(4, 24)
		}
		for i := 0; i < n; i++ {
			c.T = append(c.T, tArg())
			if i > 0 && s.Chance(1, 4) {
				c.T[i].K = "same"
			}
		}
		if c.Fn != "FC.Forward" {
			c.O = []int{s.Intn(2)}
		}
		c.N = s.Range(0, 6)
		if s.Chance(1, 12) {
			c.N = eng.Pick(s, []int{math.MaxInt, 1 << 32, 1 << 62})
		}
	case "NewSoftmax":
		c.O = []int{s.Weighted(5, 1)}
		if s.Chance(1, 6) {
			c.N = eng.Pick(s, extremeInts)
		}
	case "MSE", "BCE", "CE", "Accuracy":
		a := tArg()
		if s.Chance(3, 4) {
			r := 1
			if c.Fn == "CE" {
				r = 2
			}
			a.S = s.Shape(r, r, 30)
		}
		b := a
		b.K = ""
		b.T = s.Bool()
		b.S = append([]int{}, a.S...)
		if s.Bool() {
			b.S = tweakShape(s, b.S)
		}
		if s.Chance(1, 10) {
			b.K = "nil"
		}
		c.T = []TArg{a, b}
		if s.Bool() {
			c.T = []TArg{b, a}
		}
		if s.Chance(1, 10) {
			c.T[1].K = "same"
		}
	case "SGD":
		c.O = []int{s.Range(0, 5), s.Intn(2)}
		c.T = []TArg{{S: s.Shape(0, 5, 60)}}
	default:
		c.O = []int{s.Weighted(6, 1)}
		c.D = anyDims(s, 0, 5, 2000)
		c.DNil = s.Bool()
		if c.Fn == "NewNormal" && math.IsNaN(c.F[0]) {
			c.F[0] = 0
		}
		if s.Bool() {
			c.N, c.M = s.Range(1, 6), s.Range(1, 6)
		}
		if s.Chance(1, 12) {
			c.N = eng.Pick(s, extremeInts)
		}
		if s.Chance(1, 12) {
			c.M = eng.Pick(s, extremeInts)
		}
	}
	return c
}

func genMiscCall(s *eng.Src) Call {
	c := Call{Fn: eng.Pick(s, []string{"At", "Equals", "stats", "BackPropagate"})}
	sh := s.Shape(0, 5, 60)
	c.T = []TArg{{S: sh, T: s.Bool()}}
	switch c.Fn {
	case "At":
		for i := range sh {
			c.D = append(c.D, s.Intn(sh[i]))
		}
		if s.Chance(2, 3) {
			switch s.Intn(4) {
			case 0:
				c.D = append(c.D, s.Range(-1, 1))
			case 1:
				if len(c.D) > 0 {
					c.D = c.D[1:]
				}
			default:
				if len(c.D) > 0 {
					i := s.Intn(len(c.D))
					c.D[i] = eng.Pick(s, []int{-1, sh[i], sh[i] - 1, -2, 6, 0, math.MaxInt, math.MinInt, 1 << 32})
				}
			}
		}
		c.DNil = s.Bool()
	case "Equals":
		b := append([]int{}, sh...)
		if s.Bool() {
			b = tweakShape(s, b)
		}
		c.T = append(c.T, TArg{S: b, T: s.Bool()})
		if s.Chance(1, 6) {
			c.T[1].K = eng.Pick(s, []string{"nil", "foreign"})
		}
	case "BackPropagate":
		c.T[0].K = eng.Pick(s, []string{"", "nil", "foreign"})
	case "stats":
		c.N = s.Range(-1, 1)
	}
	return c
}

// enumCalls lists the small argument spaces completely.
func enumCalls(th bool, yield func(Call) bool) {
	dim := 3
	shapes := shapesUpTo(3, dim)
	s2 := shapesUpTo(2, dim)
	tr := func(s []int) TArg { return TArg{S: s, T: len(s)%2 == 0} }
	// one operand and an integer
	for _, k := range append(append([]string{}, ref.Reduce...), "UnSqueeze", "Squeeze", "Flatten", "Transpose") {
		for _, s := range shapes {
			for n := -2; n <= 6; n++ {
				if !yield(Call{Fn: k, T: []TArg{tr(s)}, N: n}) {
					return
				}
				if k == "Transpose" {
					break
				}
			}
		}
	}
	// two operands, all shape pairs
	for _, k := range append(append(append([]string{"Dot", "MatMul", "Equals", "MSE", "BCE", "CE", "Accuracy"}, ref.Arith...), ref.Compare...), ref.ElMM...) {
		l := shapes
		if k == "Equals" || ref.IsCompare(k) || ref.IsElMM(k) {
			l = s2
		}
		for _, s := range l {
			for _, t := range l {
				if !yield(Call{Fn: k, T: []TArg{tr(s), tr(t)}}) {
					return
				}
			}
		}
	}
	// ranges
	for _, s := range s2 {
		for a := -2; a <= 4; a++ {
			for b := -2; b <= 4; b++ {
				if !yield(Call{Fn: "Slice", T: []TArg{tr(s)}, R: [][2]int{{a, b}}}) ||
					!yield(Call{Fn: "Slice", T: []TArg{tr(s)}, R: [][2]int{{0, 0}, {a, b}}}) ||
					!yield(Call{Fn: "Slice", T: []TArg{tr(s)}, R: [][2]int{{0, 1}, {a, b}, {0, 0}}}) {
					return
				}
				for _, t := range s2 {
					if !yield(Call{Fn: "Patch", T: []TArg{tr(s), tr(t)}, R: [][2]int{{a, b}}}) ||
						!yield(Call{Fn: "Patch", T: []TArg{tr(s), tr(t)}, R: [][2]int{{0, 0}, {a, b}}}) {
						return
					}
				}
			}
		}
	}
	// shapes as arguments: all of rank <= 3 over -1..4
	var rec func(d []int) bool
	rec = func(d []int) bool {
		for _, k := range []string{"Full", "Zeros", "Ones", "RandU", "RandN"} {
			if !yield(Call{Fn: k, D: append([]int{}, d...), DNil: true, Conf: 1 + len(d)%2, F: lib.FL{-1, 1}}) {
				return false
			}
		}
		for _, s := range s2 {
			for _, k := range []string{"Reshape", "Broadcast"} {
				if !yield(Call{Fn: k, T: []TArg{tr(s)}, D: append([]int{}, d...), DNil: true}) {
					return false
				}
			}
		}
		for _, s := range s2 {
			if !yield(Call{Fn: "At", T: []TArg{tr(s)}, D: append([]int{}, d...), DNil: true}) {
				return false
			}
		}
		if len(d) == 3 {
			return true
		}
		for x := -1; x <= 4; x++ {
			if !rec(append(append([]int{}, d...), x)) {
				return false
			}
		}
		return true
	}
	if !rec(nil) {
		return
	}
	for n := -2; n <= 6; n++ {
		for c := 0; c <= 6; c++ {
			if !yield(Call{Fn: "Eye", N: n, Conf: c}) {
				return
			}
		}
	}
	// Concat: all triples of small shapes
	for _, s := range s2 {
		for _, t := range s2 {
			for n := -2; n <= 3; n++ {
				if !yield(Call{Fn: "Concat", T: []TArg{tr(s), tr(t)}, N: n}) ||
					!yield(Call{Fn: "Concat", T: []TArg{tr(s), tr(s), tr(t)}, N: n}) ||
					!yield(Call{Fn: "Concat", T: []TArg{tr(s), {K: "nil"}}, N: n}) ||
					!yield(Call{Fn: "Concat", T: []TArg{{K: "foreign", S: s}, tr(t)}, N: n}) {
					return
				}
			}
		}
		if !yield(Call{Fn: "Concat", T: []TArg{tr(s)}}) {
			return
		}
	}
	if !yield(Call{Fn: "Concat", DNil: true}) || !yield(Call{Fn: "Concat"}) {
		return
	}
	// ragged data: all length patterns up to depth 3
	enumRagged(yield)
}

// enumRagged lists nested data of depth 1..3 with every length pattern over
// 0..2, and depth 4 with one deviating length.
func enumRagged(yield func(Call) bool) {
	row := func(n int) []float64 {
		if n < 0 {
			return nil
		}
		return make([]float64, n)
	}
	for n := -1; n <= 3; n++ {
		if !yield(Call{Fn: "TensorOf", Conf: 1, Rag: &Ragged{1, [][][][]float64{{{row(n)}}}}}) {
			return
		}
	}
	// all matrices with up to 3 rows of length 0..2 (base 3 digits), nil rows as -1
	var mats [][][]float64
	for rows := 0; rows <= 3; rows++ {
		tot := 1
		for i := 0; i < rows; i++ {
			tot *= 4
		}
		for q := 0; q < tot; q++ {
			m := [][]float64{}
			r := q
			for i := 0; i < rows; i++ {
				m = append(m, row(r%4-1))
				r /= 4
			}
			mats = append(mats, m)
		}
	}
	for _, m := range mats {
		if !yield(Call{Fn: "TensorOf", Conf: 1, Rag: &Ragged{2, [][][][]float64{{m}}}}) {
			return
		}
	}
	for i, m := range mats {
		if len(m) > 2 && i%3 != 0 {
			continue
		}
		for j, k := range mats {
			if len(k) > 2 && j%5 != 0 {
				continue
			}
			if !yield(Call{Fn: "TensorOf", Conf: 1, Rag: &Ragged{3, [][][][]float64{{m, k}}}}) {
				return
			}
		}
		if !yield(Call{Fn: "TensorOf", Conf: 1, Rag: &Ragged{3, [][][][]float64{{m}}}}) {
			return
		}
	}
	// depth 4: one cube against another that deviates in one place
	for a := 1; a <= 2; a++ {
		for b := 1; b <= 2; b++ {
			for c := 1; c <= 2; c++ {
				for d := 1; d <= 2; d++ {
					mk := func() [][][][]float64 {
						v := make([][][][]float64, a)
						for i := range v {
							v[i] = make([][][]float64, b)
							for j := range v[i] {
								v[i][j] = make([][]float64, c)
								for k := range v[i][j] {
									v[i][j][k] = make([]float64, d)
								}
							}
						}
						return v
					}
					if !yield(Call{Fn: "TensorOf", Conf: 2, Rag: &Ragged{4, mk()}}) {
						return
					}
					for n := 0; n <= 3; n++ {
						for i := 0; i < a; i++ {
							v := mk()
							w := make([][][]float64, n)
							for j := range w {
								w[j] = v[0][0]
							}
							v[i] = w
							if !yield(Call{Fn: "TensorOf", Conf: 2, Rag: &Ragged{4, v}}) {
								return
							}
							for j := 0; j < b; j++ {
								v := mk()
								w := make([][]float64, n)
								for k := range w {
									w[k] = v[0][0][0]
								}
								v[i][j] = w
								if !yield(Call{Fn: "TensorOf", Conf: 2, Rag: &Ragged{4, v}}) {
									return
								}
								for k := 0; k < c; k++ {
									v := mk()
									v[i][j][k] = make([]float64, n)
									if !yield(Call{Fn: "TensorOf", Conf: 2, Rag: &Ragged{4, v}}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// CallSeq is a sequence of calls on shared objects: each step performs one of
// the calls a number of times.
type CallSeq struct {
	C     []Call   `json:"c"`
	Steps [][2]int `json:"steps"` // which call, how often
}

// genCallSeq makes a few calls, most of them of one entry point and with the
// same configuration (so of the same object), and a history of them.
func genCallSeq(s *eng.Src) CallSeq {
	var q CallSeq
	fn := eng.Pick(s, compFns)
	gen := func() Call { return compCallOf(s, fn) }
	ops := s.Weighted(8, 2, 1, 1)
	if ops > 0 {
		any := []func(*eng.Src) Call{genOpCall, genCtorCall, genMiscCall}[ops-1]
		gen = func() Call {
			for i := 0; ; i++ {
				c := any(s)
				if len(q.C) == 0 || c.Fn == q.C[0].Fn || i > 40 {
					return c
				}
			}
		}
	}
	n := s.Range(2, 6)
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && s.Chance(1, 8):
			q.C = append(q.C, genOpCall(s))
		case i > 0 && s.Chance(1, 8):
			q.C = append(q.C, genCompCall(s))
		default:
			c := gen()
			if ops == 0 && len(q.C) > 0 && s.Chance(3, 4) {
				a := q.C[0]
				c.F = a.F
				switch fn {
				case "SGD":
					c.O[1] = a.O[1]
				case "Softmax", "LeakyRelu":
					c.N, c.O = a.N, a.O
				case "FC.Forward":
					c.M = a.M
				case "Relu", "Sigmoid", "TanhAct", "Input.Forward", "MSE", "BCE", "CE", "Accuracy", "NewFC":
				default:
					c.N, c.M, c.O = a.N, a.M, a.O
				}
			}
			q.C = append(q.C, c)
		}
		c := &q.C[len(q.C)-1]
		c.T = slices.Clone(c.T)
		for i := range c.T {
			if s.Chance(1, 2) {
				c.T[i].V = s.Intn(10)
			}
		}
	}
	steps := s.Range(2, 10)
	for i := 0; i < steps; i++ {
		k := 1
		if s.Chance(1, 4) {
			k = 1 + s.Intn(1<<s.Range(1, 8))
		}
		q.Steps = append(q.Steps, [2]int{s.Intn(len(q.C)), k})
	}
	return q
}

func checkCallSeq(q CallSeq, x *eng.Ctx) error {
	env := &callEnv{obj: map[string]any{}, ts: map[string]lib.Tensor{}}
	n := 0
	for i, st := range q.Steps {
		c := q.C[st[0]]
		c.env = env
		for k := 0; k < st[1]; k++ {
			if err := checkCall(c, x); err != nil {
				return fmt.Errorf("step %d (repetition %d, after %d calls): %w", i, k, n, err)
			}
			n++
		}
	}
	return nil
}

func C09() *eng.Prop {
	part := func(name string, q, t int, g func(s *eng.Src) Call) eng.AnyPart {
		gen := func(s *eng.Src) Call {
			c := g(s)
			c.T = slices.Clone(c.T)
			for i := range c.T {
				if s.Chance(1, 2) {
					c.T[i].V = s.Intn(10)
				}
			}
			return c
		}
		return eng.Part[Call]{Name: name, Quick: q, Thorough: t, Gen: gen, Check: checkCall}
	}
	return &eng.Prop{
		ID:     "C09",
		QuickX: 8,
		Rule:   "every case is one call of a public entry point whose acceptance was compared with an independently written precondition; the classes say how many calls were accepted and rejected",
		Parts: []eng.AnyPart{
			eng.Part[Call]{Name: "all small argument tuples", Enum: enumCalls, Check: checkCall},
			part("tensor operations", 150000, 5000000, genOpCall),
			part("constructors", 40000, 1500000, genCtorCall),
			part("components", 60000, 2000000, genCompCall),
			part("accessors and back-propagation", 30000, 1000000, genMiscCall),
			eng.Part[CallSeq]{Name: "sequences of calls on the same objects", Quick: 6000, Thorough: 150000, Gen: genCallSeq, Check: checkCallSeq},
		},
		Assumptions: []string{
			"a Config with an unset Device is an error, nil and empty dimension lists mean rank 0, Concat needs two tensors",
			"not generated: typed nil receivers, infinite bounds of uniform distributions, components given foreign tensors are only required not to panic",
		},
	}
}
