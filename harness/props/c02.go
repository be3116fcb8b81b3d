package props

import (
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"
)

func diffOps() []string {
	var l []string
	for _, k := range ref.AllDiff() {
		if k != "Broadcast" {
			l = append(l, k)
		}
	}
	return l
}

// drawValues draws operand values for a vector-Jacobian case.
func drawValues(s *eng.Src, op ref.Op, arg, n int, style int, k int) []float64 {
	var v []float64
	switch style {
	case 0:
		v = s.NiceN(n)
	case 1: // offset data
		v = s.NiceN(n)
		off := []float64{1e3, 1e6, -1e5, 1e8}[(k+1000)%4]
		for i := range v {
			v[i] += off
		}
	case 2: // any moderate magnitude
		v = s.Floats(n, func(s *eng.Src) float64 {
			f := math.Ldexp(1+s.Unit(), s.Range(0, 120)-60)
			if s.Bool() {
				f = -f
			}
			return f
		})
	case 3: // extreme magnitude, common to all operands
		v = s.NiceN(n)
		for i := range v {
			v[i] = math.Ldexp(v[i], k)
		}
	default: // special values
		v = s.Floats(n, func(s *eng.Src) float64 {
			return eng.Pick(s, []float64{0, 1, -1, 0.5, 2, math.Copysign(0, -1), -0.5, 1e-12, 3, math.Pi / 2, 1e-200, 3e-200, 20, -20, 100})
		})
	}
	if ref.IsElMM(op.K) || op.K == "MaxAlong" || op.K == "MinAlong" {
		for i := range v {
			v[i] *= 1 + float64(i+1)*1e-5 + float64(arg)*0x1p-20
			if v[i] == 0 {
				v[i] = float64(i+1)*1e-4 + float64(arg)*1e-3
			}
		}
	}
	switch op.K {
	case "Exp", "Sinh", "Cosh":
		if style == 1 {
			for i := range v {
				v[i] = math.Mod(v[i], 300)
			}
		}
	case "VarAlong", "StdAlong":
		if style == 4 {
			for i := range v {
				v[i] += float64(i) * 0.25
			}
		}
	}
	domain(op, arg, v)
	return v
}

// genOpShapes draws operand shapes and arguments for kind k without implicit
// expansion.
func genOpShapes(s *eng.Src, k string, maxRank, maxElems int) (op ref.Op, in [][]int) {
	op.K = k
	switch {
	case k == "Scale":
		op.A = eng.Pick(s, []float64{2, 0, 1, -1, -0.3, 1e6, 1e-9})
		if s.Bool() {
			op.A = s.Unit()*8 - 4
		}
	case k == "Pow":
		op.A = eng.Pick(s, []float64{2, 1, 0, 3, -1, 0.5, -0.5, -2, 1.5, 4, 5, 10, -3, 1.0 / 3, 0.1})
		if s.Chance(1, 3) {
			op.A = s.Unit()*6 - 3
		}
	}
	lo := 0
	switch {
	case ref.IsReduce(k), k == "Flatten", k == "Concat", k == "Dot", k == "Squeeze":
		lo = 1
	case k == "Transpose", k == "MatMul":
		lo = 2
	}
	x := s.Shape(lo, maxRank, maxElems)
	in = [][]int{x}
	r := len(x)
	rng := func(src []int) {
		n := s.Range(0, r)
		for i := 0; i < n; i++ {
			if s.Chance(1, 4) {
				op.R = append(op.R, [2]int{0, 0})
				continue
			}
			if src != nil {
				f := s.Intn(x[i] - src[i] + 1)
				op.R = append(op.R, [2]int{f, f + src[i]})
			} else {
				f := s.Intn(x[i])
				op.R = append(op.R, [2]int{f, f + 1 + s.Intn(x[i]-f)})
			}
		}
	}
	switch {
	case ref.IsReduce(k), k == "Flatten":
		op.D = s.Intn(r)
	case k == "UnSqueeze":
		op.D = s.Intn(r + 1)
	case k == "Squeeze":
		op.D = s.Intn(r)
		x[op.D] = 1
	case k == "Reshape":
		op.S = drawFactor(s, ref.Prod(x), maxRank)
	case k == "Slice":
		rng(nil)
	case k == "Patch":
		p := make([]int, r)
		for i := range p {
			p[i] = x[i]
			if !s.Chance(1, 3) {
				p[i] = s.Range(1, x[i])
			}
		}
		in = append(in, p)
		rng(p)
	case ref.IsArith(k), ref.IsElMM(k), ref.IsCompare(k), k == "Dot":
		in = append(in, append([]int{}, x...))
	case k == "MatMul":
		y := append([]int{}, x...)
		y[r-2] = x[r-1]
		y[r-1] = s.Range(1, 5)
		if s.Big {
			y[r-1] = s.Size(1, max(5, maxElems/max(1, y[r-2])/4))
		}
		if s.Chance(1, 4) {
			y[r-1] = x[r-2]
		}
		if s.Big {
			fitProduct(x, y)
		}
		in = append(in, y)
	case k == "Concat":
		op.D = s.Intn(r)
		for i := range x[:op.D] {
			// the library allocates the square of a leading dimension
			x[i] = min(x[i], 4100)
		}
		n := s.Range(2, 5)
		if s.Chance(1, 10) {
			n = s.Size(6, 40)
			if s.Big {
				n = min(s.Size(6, 300), max(2, maxElems/ref.Prod(x)))
			}
		}
		total := ref.Prod(x)
		for i := 1; i < n; i++ {
			y := append([]int{}, x...)
			y[op.D] = s.Range(1, 4)
			if s.Big && total < maxElems && s.Bool() {
				y[op.D] = s.Size(1, max(4, maxElems*x[op.D]/ref.Prod(x)))
			}
			if s.Chance(1, 3) {
				y[op.D] = x[op.D]
			}
			if i > 1 && s.Big && total+ref.Prod(y) > 2*maxElems {
				break
			}
			total += ref.Prod(y)
			in = append(in, y)
		}
	}
	return op, in
}

// fitProduct keeps the number of scalar products of a MatMul in bounds.
func fitProduct(x, y []int) {
	r := len(x)
	for ref.Prod(x)*y[r-1] > 400000 {
		i := 0
		for j := range x {
			if x[j] > x[i] {
				i = j
			}
		}
		if y[r-1] >= x[i] {
			y[r-1] /= 2
			continue
		}
		x[i] /= 2
		if i == r-1 {
			y[r-2] = x[i]
		} else if i < r-2 {
			y[i] = x[i]
		}
	}
}

func genOp(kinds []string, maxElems int) func(s *eng.Src) OpCase {
	return func(s *eng.Src) OpCase {
		var c OpCase
		k := eng.Pick(s, kinds)
		op, in := genOpShapes(s, k, 6, maxElems)
		c.Op = op
		style := s.Weighted(6, 1, 2, 1, 2)
		ex := s.Range(0, 1800) - 900
		any := false
		for i, sh := range in {
			if i > 0 && s.Chance(1, 6) {
				// the same tensor again
				j := s.Intn(len(c.Lv))
				if ref.EqShape(c.Lv[j].S, sh) {
					c.Arg = append(c.Arg, j)
					continue
				}
			}
			v := drawValues(s, op, i, ref.Prod(sh), style, ex)
			tr := s.Chance(3, 4)
			any = any || tr
			c.Arg = append(c.Arg, len(c.Lv))
			c.Lv = append(c.Lv, lib.L{S: sh, V: v, T: tr})
		}
		if !any {
			c.Lv[0].T = true
		}
		shapes := make([][]int, len(c.Arg))
		for i, j := range c.Arg {
			shapes[i] = c.Lv[j].S
		}
		o, ok := ref.OutShape(op, shapes...)
		if !ok {
			panic(eng.HarnessPanic{Msg: "genOp: " + k})
		}
		switch s.Weighted(6, 1, 1, 1) {
		case 0:
			c.W = s.NiceN(ref.Prod(o))
		case 1:
		case 2:
			c.W = s.Floats(ref.Prod(o), func(s *eng.Src) float64 {
				f := math.Ldexp(1+s.Unit(), s.Range(0, 80)-40)
				if s.Bool() {
					f = -f
				}
				return f
			})
		default: // sparse
			c.W = make(lib.FL, ref.Prod(o))
			c.W[s.Intn(len(c.W))] = 1 + s.Unit()
		}
		return c
	}
}

func labelOp(f func(OpCase, *eng.Ctx) error) func(OpCase, *eng.Ctx) error {
	return func(c OpCase, x *eng.Ctx) error {
		err := f(c, x)
		if err == nil && !x.Skipped() {
			x.Label("op " + c.Op.K)
			x.Label("operand rank %d", len(c.Lv[c.Arg[0]].S))
		}
		return err
	}
}

// opCaseFor builds an enumerated case with irregular data; m selects the
// tracked operands.
func opCaseFor(op ref.Op, in [][]int, m int) OpCase {
	c := OpCase{Op: op}
	seed := eng.HashString(op.K) + uint64(op.D)
	for i, s := range in {
		v := fill(eng.Mix(seed, uint64(i)), ref.Prod(s))
		if ref.IsElMM(op.K) && i == 1 {
			for j := range v {
				v[j] += 1e-3
			}
		}
		domain(op, i, v)
		c.Lv = append(c.Lv, lib.L{S: s, V: v, T: m>>i&1 != 0})
		c.Arg = append(c.Arg, i)
	}
	o, _ := ref.OutShape(op, in...)
	c.W = fill(eng.Mix(seed, 77), ref.Prod(o))
	return c
}

func C02() *eng.Prop {
	return &eng.Prop{
		ID:     "C02",
		QuickX: 2,
		Rule:   "a case is non-trivial when at least one operand was tracked, the operation was differentiable at the drawn values, and every tracked operand's gradient was compared with the vector-Jacobian product of the reference",
		Parts: []eng.AnyPart{
			eng.Part[OpCase]{Name: "all small shapes and arguments", Check: labelOp(checkOp), Enum: func(th bool, yield func(OpCase) bool) {
				dim := 3
				enumOps(diffOps(), 3, dim, false, func(op ref.Op, in [][]int) bool {
					masks := []int{1<<len(in) - 1}
					if len(in) == 2 {
						masks = []int{1, 2, 3}
					} else if len(in) > 2 {
						masks = []int{1<<len(in) - 1, 2, 5}
					}
					for _, m := range masks {
						if !yield(opCaseFor(op, in, m)) {
							return false
						}
					}
					return true
				})
			}},
			gseqPart(20000, 800000, diffOps(), 24, false),
			eng.Part[OpCase]{Name: "random operation", Quick: 150000, Thorough: 6000000, Check: labelOp(checkOp), Gen: genOp(diffOps(), 48)},
			eng.Part[OpCase]{Name: "random operation, large", Quick: 2500, Thorough: 100000, Check: labelOp(checkOp), Gen: eng.Large(genOp(diffOps(), 8000))},
			eng.Part[OpCase]{Name: "random operation, very large", Quick: 160, Thorough: 8000, Check: labelOp(checkOp), Gen: eng.Large(genOp(diffOps(), 80000))},
			eng.Part[OpCase]{Name: "random operation, huge", Quick: 60, Thorough: 2000, Check: labelOp(checkOp), Gen: eng.Huge(genOp(diffOps(), 140000))},
			eng.Part[OpCase]{Name: "infinite operands", Quick: 10000, Thorough: 300000, Check: labelOp(checkOp), Gen: withInf(genOp(infOps, 32))},
			eng.Part[OpCase]{Name: "pow", Quick: 15000, Thorough: 500000, Check: labelOp(checkOp), Gen: genOp([]string{"Pow", "Div", "StdAlong", "VarAlong"}, 24)},
		},
		Assumptions: []string{
			"points where the reference derivative does not exist, or where the result or a path contribution leaves the range of float64, are skipped",
			"tolerance: 1e-11 of the sum of the magnitudes of the contributions plus a bound on the rounding of the reference partials",
		},
	}
}
