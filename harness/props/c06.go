package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/tensor"
)

func eyeOf(n int) (lib.Tensor, error) { return tensor.Eye(n, lib.Conf(false)) }

var moveOps = []string{"Slice", "Patch", "Concat", "Reshape", "Flatten", "Squeeze", "UnSqueeze", "Broadcast"}

// codes gives n distinct values, with a few special bit patterns among them.
func codes(s *eng.Src, n int, from float64) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = from + float64(i) + 1
	}
	if n > 0 && s.Chance(1, 4) {
		k := s.Range(1, 6)
		for ; k > 0; k-- {
			v[s.Intn(n)] = eng.Pick(s, []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, math.MaxFloat64, 5e-324, -math.MaxFloat64, 1e-300})
		}
	}
	return v
}

func coded(op ref.Op, in [][]int) Fwd {
	c := Fwd{Op: op}
	base := 0.0
	for i, s := range in {
		n := ref.Prod(s)
		v := make([]float64, n)
		for j := range v {
			v[j] = base + float64(j) + 1
		}
		base += float64(n)
		c.Lv = append(c.Lv, lib.L{S: s, V: v, T: i%2 == 1})
		c.Arg = append(c.Arg, i)
	}
	return c
}

// checkMove compares bit patterns.
func checkMove(c Fwd, x *eng.Ctx) error {
	o, _ := refForward(c.Op, c.Lv, c.Arg)
	in, err := buildAll(c.Lv, c.Arg)
	if err != nil {
		return err
	}
	y, err := lib.Apply(c.Op, in...)
	if err != nil {
		return err
	}
	d := lib.Desc(c.Op, in...)
	if err := lib.CheckBits(d, y, o.Shape, o.V); err != nil {
		return err
	}
	x.Label("op " + c.Op.K)
	x.Label("rank %d", len(c.Lv[c.Arg[0]].S))
	if len(o.V) > 1 {
		x.NonTrivial()
	}
	return nil
}

func genMove(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		k := eng.Pick(s, moveOps)
		var op ref.Op
		var in [][]int
		if k == "Broadcast" {
			t := s.Shape(0, 6, maxElems)
			op = ref.Op{K: k, S: t}
			in = [][]int{s.Sub(t)}
		} else {
			op, in = genOpShapes(s, k, 6, maxElems)
		}
		c := Fwd{Op: op}
		base := 0.0
		for i, sh := range in {
			if i > 0 && s.Chance(1, 10) {
				j := s.Intn(len(c.Lv))
				if ref.EqShape(c.Lv[j].S, sh) {
					c.Arg = append(c.Arg, j)
					continue
				}
			}
			n := ref.Prod(sh)
			c.Arg = append(c.Arg, len(c.Lv))
			c.Lv = append(c.Lv, lib.L{S: sh, V: codes(s, n, base), T: s.Bool()})
			base += float64(n)
		}
		return c
	}
}

// Ctor is one constructor call.
type Ctor struct {
	K string `json:"k"`
	S []int  `json:"s"`
	V lib.FL `json:"v"`
	T bool   `json:"t"`
	// NilConf passes a nil config, NilDims nil dims (rank 0).
	NilConf bool `json:"nilconf,omitempty"`
	NilDims bool `json:"nildims,omitempty"`
}

func checkCtor(c Ctor, x *eng.Ctx) error {
	conf := lib.Conf(c.T)
	if c.NilConf {
		conf = nil
	}
	dims := append([]int{}, c.S...)
	if c.NilDims && len(c.S) == 0 {
		dims = nil
	}
	n := ref.Prod(c.S)
	want := make([]float64, n)
	var t lib.Tensor
	var err error
	switch c.K {
	case "Full":
		for i := range want {
			want[i] = c.V[0]
		}
		t, err = tensor.Full(dims, c.V[0], conf)
	case "Zeros":
		t, err = tensor.Zeros(dims, conf)
	case "Ones":
		for i := range want {
			want[i] = 1
		}
		t, err = tensor.Ones(dims, conf)
	case "Eye":
		for i := 0; i < c.S[0]; i++ {
			want[i*c.S[0]+i] = 1
		}
		t, err = tensor.Eye(c.S[0], conf)
	case "TensorOf":
		copy(want, c.V)
		t, err = lib.Build(c.S, c.V, c.T)
	}
	if err != nil {
		return fmt.Errorf("%s of shape %v failed: %v", c.K, c.S, err)
	}
	if t == nil {
		return fmt.Errorf("%s of shape %v returned nothing", c.K, c.S)
	}
	if err := lib.CheckBits(fmt.Sprintf("%s of shape %v", c.K, c.S), t, c.S, want); err != nil {
		return err
	}
	x.Label(c.K)
	if n > 1 {
		x.NonTrivial()
	}
	return nil
}

func genCtor(maxElems int) func(s *eng.Src) Ctor {
	return func(s *eng.Src) Ctor {
		c := Ctor{K: eng.Pick(s, []string{"TensorOf", "Full", "Zeros", "Ones", "Eye"}), T: s.Bool(), NilConf: s.Chance(1, 5), NilDims: s.Bool()}
		c.S = s.Shape(0, 6, maxElems)
		switch c.K {
		case "Eye":
			n := s.Range(1, 9)
			if s.Chance(1, 8) {
				n = s.Range(10, 40)
			}
			if s.Big {
				n = s.Size(1, 600)
			}
			c.S = []int{n, n}
		case "Full":
			c.V = codes(s, 1, s.Wild())
		case "TensorOf":
			c.V = codes(s, ref.Prod(c.S), 0)
		}
		return c
	}
}

// RoundTrip: pieces are written and read back.
type RoundTrip struct {
	K string   `json:"k"`
	A lib.L    `json:"a"`
	B []lib.L  `json:"b"`
	D int      `json:"d"`
	R [][2]int `json:"r"`
}

func genRoundTrip(s *eng.Src) RoundTrip {
	var c RoundTrip
	c.K = eng.Pick(s, []string{"patch", "concat", "self", "shape"})
	switch c.K {
	case "concat":
		op, in := genOpShapes(s, "Concat", 6, 80)
		c.D = op.D
		base := 0.0
		for _, sh := range in {
			n := ref.Prod(sh)
			c.B = append(c.B, lib.L{S: sh, V: codes(s, n, base)})
			base += float64(n)
		}
	case "patch":
		op, in := genOpShapes(s, "Patch", 6, 120)
		c.R = op.R
		n := ref.Prod(in[0])
		c.A = lib.L{S: in[0], V: codes(s, n, 0)}
		c.B = []lib.L{{S: in[1], V: codes(s, ref.Prod(in[1]), float64(n))}}
	case "self":
		op, in := genOpShapes(s, "Slice", 6, 120)
		c.R = op.R
		c.A = lib.L{S: in[0], V: codes(s, ref.Prod(in[0]), 0)}
	default:
		sh := s.Shape(0, 6, 120)
		c.A = lib.L{S: sh, V: codes(s, ref.Prod(sh), 0)}
		c.B = []lib.L{{S: drawFactor(s, ref.Prod(sh), 6)}}
		c.D = s.Intn(len(sh) + 1)
	}
	return c
}

func checkRoundTrip(c RoundTrip, x *eng.Ctx) error {
	build := func(l lib.L) (lib.Tensor, error) { return lib.Build(l.S, l.V, l.T) }
	x.NonTrivial()
	x.Label("round trip " + c.K)
	switch c.K {
	case "concat":
		var ts []lib.Tensor
		for _, l := range c.B {
			t, err := build(l)
			if err != nil {
				return err
			}
			ts = append(ts, t)
		}
		y, err := lib.Apply(ref.Op{K: "Concat", D: c.D}, ts...)
		if err != nil {
			return err
		}
		at := 0
		for i, l := range c.B {
			var r [][2]int
			for j := 0; j < c.D; j++ {
				r = append(r, [2]int{0, 0})
			}
			r = append(r, [2]int{at, at + l.S[c.D]})
			at += l.S[c.D]
			p, err := lib.Apply(ref.Op{K: "Slice", R: r}, y)
			if err != nil {
				return err
			}
			if err := lib.CheckBits(fmt.Sprintf("piece %d sliced from the concatenation along %d", i, c.D), p, l.S, l.V); err != nil {
				return err
			}
		}
	case "patch":
		a, err := build(c.A)
		if err != nil {
			return err
		}
		b, err := build(c.B[0])
		if err != nil {
			return err
		}
		y, err := lib.Apply(ref.Op{K: "Patch", R: c.R}, a, b)
		if err != nil {
			return err
		}
		full := make([][2]int, len(c.A.S))
		for i := range full {
			from := 0
			if i < len(c.R) {
				from = c.R[i][0]
			}
			full[i] = [2]int{from, from + c.B[0].S[i]}
		}
		p, err := lib.Apply(ref.Op{K: "Slice", R: full}, y)
		if err != nil {
			return err
		}
		if err := lib.CheckBits("slice of the patched block", p, c.B[0].S, c.B[0].V); err != nil {
			return err
		}
		// writing the old block back restores the target
		o, err := lib.Apply(ref.Op{K: "Slice", R: full}, a)
		if err != nil {
			return err
		}
		z, err := lib.Apply(ref.Op{K: "Patch", R: full}, y, o)
		if err != nil {
			return err
		}
		return lib.CheckBits("patched and restored tensor", z, c.A.S, c.A.V)
	case "self":
		a, err := build(c.A)
		if err != nil {
			return err
		}
		o, err := lib.Apply(ref.Op{K: "Slice", R: c.R}, a)
		if err != nil {
			return err
		}
		z, err := lib.Apply(ref.Op{K: "Patch", R: c.R}, a, o)
		if err != nil {
			return err
		}
		return lib.CheckBits("tensor patched with its own slice", z, c.A.S, c.A.V)
	default:
		a, err := build(c.A)
		if err != nil {
			return err
		}
		y, err := lib.Apply(ref.Op{K: "Reshape", S: c.B[0].S}, a)
		if err != nil {
			return err
		}
		z, err := lib.Apply(ref.Op{K: "Reshape", S: c.A.S}, y)
		if err != nil {
			return err
		}
		if err := lib.CheckBits("reshaped back and forth", z, c.A.S, c.A.V); err != nil {
			return err
		}
		if len(c.A.S) < 6 {
			u, err := lib.Apply(ref.Op{K: "UnSqueeze", D: c.D}, a)
			if err != nil {
				return err
			}
			q, err := lib.Apply(ref.Op{K: "Squeeze", D: c.D}, u)
			if err != nil {
				return err
			}
			return lib.CheckBits("unsqueezed and squeezed", q, c.A.S, c.A.V)
		}
	}
	return nil
}

func C06() *eng.Prop {
	return &eng.Prop{
		ID:     "C06",
		QuickX: 2,
		Rule:   "a case is non-trivial when the result has more than one element and every element's bit pattern was compared with the defined one (each operand element carries a distinct code)",
		Parts: []eng.AnyPart{
			eng.Part[Fwd]{Name: "all small shapes and arguments", Check: checkMove, Enum: func(th bool, yield func(Fwd) bool) {
				d := 3
				r := 3
				if th {
					r = 4
				}
				enumOps(moveOps, r, d, true, func(op ref.Op, in [][]int) bool { return yield(coded(op, in)) })
			}},
			seqPart(40000, 1500000, append(append([]string{}, moveOps...), "Transpose"), []string{qAt}, 60, true),
			fwdMove("random element moves", 120000, 4000000, genMove(80)),
			fwdMove("large element moves", 2500, 80000, eng.Large(genMove(70000))),
			fwdMove("huge element moves", 60, 2000, eng.Huge(genMove(140000))),
			eng.Part[Ctor]{Name: "huge constructors", Quick: 24, Thorough: 800, Gen: eng.Huge(genCtor(140000)), Check: checkCtor},
			eng.Part[Ctor]{Name: "constructors", Quick: 30000, Thorough: 800000, Gen: genCtor(80), Check: checkCtor},
			eng.Part[Ctor]{Name: "large constructors", Quick: 800, Thorough: 20000, Gen: eng.Large(genCtor(100000)), Check: checkCtor},
			eng.Part[RoundTrip]{Name: "round trips", Quick: 40000, Thorough: 1000000, Gen: genRoundTrip, Check: checkRoundTrip},
		},
		Assumptions: []string{"all NaNs are treated as one value; every other value is compared bit for bit (signed zeros included)"},
	}
}

func fwdMove(name string, q, t int, gen func(s *eng.Src) Fwd) eng.AnyPart {
	return eng.Part[Fwd]{Name: name, Quick: q, Thorough: t, Gen: gen, Check: checkMove}
}
