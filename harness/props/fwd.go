package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"
)

// Fwd is one forward application on leaf operands.
type Fwd struct {
	Op  ref.Op  `json:"op"`
	Lv  []lib.L `json:"leaves"`
	Arg []int   `json:"arg"`
}

const eps = 0x1p-52

// specials puts infinities (and, where wanted, NaNs) among the values.
func specials(s *eng.Src, v []float64, nan bool) {
	if len(v) == 0 || !s.Chance(1, 8) {
		return
	}
	l := []float64{math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1), math.NaN()}
	if !nan {
		l = l[:4]
	}
	mixed := s.Bool()
	one := eng.Pick(s, l)
	for k := s.Range(1, min(len(v), 8)); k > 0; k-- {
		if mixed {
			one = eng.Pick(s, l)
		}
		v[s.Intn(len(v))] = one
	}
}

func (c Fwd) shapes() [][]int {
	s := make([][]int, len(c.Arg))
	for i, j := range c.Arg {
		s[i] = c.Lv[j].S
	}
	return s
}

// refForward evaluates the reference.
func refForward(op ref.Op, lv []lib.L, arg []int) (*ref.T, []*ref.T) {
	tp := ref.NewTape()
	tp.NoGrad = true
	in := make([]*ref.T, len(arg))
	for i, j := range arg {
		in[i] = &ref.T{Shape: lv[j].S, V: lv[j].V}
	}
	return tp.Apply(op, in...), in
}

// near0 is the absolute part of the allowance for functions that behave like
// the identity at 0: there a relative error is judged.
func near0(x float64) float64 {
	if math.Abs(x) <= 1 {
		return 1e-318
	}
	return 8 * eps
}

// fwdTol is the rounding allowance of each result element; ok is false when
// the defined value is not comparable (an intermediate sum or product leaves
// the range of float64).
func fwdTol(op ref.Op, in []*ref.T, o *ref.T) (tol []float64, ok bool) {
	tol = make([]float64, len(o.V))
	ok = true
	switch {
	case ref.IsUnary(op.K):
		for p := range tol {
			w := math.Abs(o.V[p])
			switch op.K {
			case "Scale":
				tol[p] = 4*eps*w + 1e-320
			case "Pow":
				tol[p] = 1e-12*w + 1e-315
			case "Exp":
				tol[p] = 1e-13*w*(1+math.Abs(in[0].V[p])*0.01) + 1e-320
			case "Tanh":
				tol[p] = 1e-13*w + 1e-318
			case "Tan", "Sinh":
				tol[p] = 1e-12*w + near0(in[0].V[p])
			case "Sin":
				tol[p] = 1e-13*w + near0(in[0].V[p])
			default:
				tol[p] = 1e-13*w + 8*eps
			}
		}
	case ref.IsArith(op.K):
		for p := range tol {
			tol[p] = 8*eps*math.Abs(o.V[p]) + 1e-320
		}
	case ref.IsReduce(op.K):
		x := in[0]
		d := x.Shape[op.D]
		inner := ref.Prod(x.Shape[op.D+1:])
		fib := make([]float64, d)
		for p := range o.V {
			base := (p/inner)*d*inner + p%inner
			for q := range fib {
				fib[q] = x.V[base+q*inner]
			}
			var k bool
			tol[p], k = statTol(op.K[:len(op.K)-5], fib)
			ok = ok && k
		}
	case op.K == "Dot" || op.K == "MatMul":
		// the same operation on magnitudes bounds the rounding
		tp := ref.NewTape()
		tp.NoGrad = true
		ab := make([]*ref.T, 2)
		for i, x := range in {
			v := make([]float64, len(x.V))
			for j := range v {
				// infinities and NaNs decide in any order of summation, as
				// long as the finite elements do not overflow by themselves
				if finite(x.V[j]) {
					v[j] = math.Abs(x.V[j])
				}
			}
			ab[i] = &ref.T{Shape: x.Shape, V: v}
		}
		m := tp.Apply(op, ab...)
		k := float64(in[0].Shape[len(in[0].Shape)-1])
		for p := range tol {
			if !(m.V[p] < 1e300) {
				ok = false
			}
			tol[p] = 4*(k+2)*eps*m.V[p] + 1e-318*(k+1)
		}
	}
	return tol, ok
}

// statTol bounds the rounding of a statistic computed in two passes.
func statTol(stat string, v []float64) (float64, bool) {
	n := float64(len(v))
	abs, big := 0.0, 0.0
	for _, x := range v {
		abs += math.Abs(x)
		big = math.Max(big, math.Abs(x))
	}
	switch stat {
	case "Max", "Min":
		for _, x := range v {
			if math.IsNaN(x) {
				return 0, false // undefined
			}
		}
		return 0, true
	case "Sum", "Avg", "Mean":
		if !allFinite(v) {
			// infinite or not a number in any order of summation, as long as
			// the finite elements do not overflow by themselves
			abs = 0
			for _, x := range v {
				if finite(x) {
					abs += math.Abs(x)
				}
			}
			return 0, abs < 1e300
		}
		if stat == "Sum" {
			return 4*(n+2)*eps*abs + 1e-320, abs < 1e300
		}
		return 4*(n+2)*eps*abs/n + 1e-320, abs < 1e300
	}
	// Var, Std
	if len(v) == 1 {
		return 0, true
	}
	if !(big < 1e150) || !allFinite(v) {
		return 0, false
	}
	va := ref.Stat("Var", v)
	u := ref.Stat("Mean", v)
	sd := 0.0
	for _, x := range v {
		sd += math.Abs(x - u)
	}
	delta := 4 * (n + 2) * eps * abs / n
	e := 8*(n+4)*eps*va + 4*delta*sd/(n-1) + 4*delta*delta*n/(n-1) + 1e-318
	if stat == "Var" {
		return e, true
	}
	s := math.Sqrt(va)
	return math.Sqrt(va+e) - math.Sqrt(math.Max(0, va-e)) + 16*eps*s + 1e-170, true
}

// Build materialises the leaves and returns the operands.
func buildAll(lv []lib.L, arg []int) ([]lib.Tensor, error) {
	ts := make([]lib.Tensor, len(lv))
	for i, l := range lv {
		t, err := lib.Build(l.S, l.V, l.T)
		if err != nil {
			return nil, err
		}
		ts[i] = t
	}
	in := make([]lib.Tensor, len(arg))
	for i, j := range arg {
		in[i] = ts[j]
	}
	return in, nil
}

func varied(lv []lib.L) bool {
	for _, l := range lv {
		for _, v := range l.V {
			if v != lv[0].V[0] {
				return true
			}
		}
	}
	return false
}

// checkFwd compares shape and values with the reference.
func checkFwd(c Fwd, x *eng.Ctx) error {
	o, rin := refForward(c.Op, c.Lv, c.Arg)
	tol, ok := fwdTol(c.Op, rin, o)
	if !ok {
		x.Skip()
		return nil
	}
	in, err := buildAll(c.Lv, c.Arg)
	if err != nil {
		return err
	}
	y, err := lib.Apply(c.Op, in...)
	if err != nil {
		return err
	}
	d := lib.Desc(c.Op, in...)
	if err := lib.CheckNear(d, y, o.Shape, o.V, func(p int) float64 { return tol[p] }); err != nil {
		return err
	}
	if ref.IsArith(c.Op.K) && !ref.EqShape(c.Lv[c.Arg[0]].S, c.Lv[c.Arg[1]].S) {
		// the same outcome as broadcasting both operands explicitly first
		a, err := lib.Apply(ref.Op{K: "Broadcast", S: o.Shape}, in[0])
		if err != nil {
			return err
		}
		b, err := lib.Apply(ref.Op{K: "Broadcast", S: o.Shape}, in[1])
		if err != nil {
			return err
		}
		z, err := lib.Apply(c.Op, a, b)
		if err != nil {
			return err
		}
		_, v, err := lib.Read(y)
		if err != nil {
			return err
		}
		if err := lib.CheckNear(d+" after explicit broadcasting", z, o.Shape, v, func(p int) float64 { return 2 * tol[p] }); err != nil {
			return err
		}
		x.Label("implicit broadcast")
	}
	x.Label("op " + c.Op.K)
	x.Label("result rank %d", len(o.Shape))
	if varied(c.Lv) {
		x.NonTrivial()
	}
	return nil
}

// checkStat compares the whole-tensor statistics.
func checkStat(c lib.L, x *eng.Ctx) error {
	t, err := lib.Build(c.S, c.V, c.T)
	if err != nil {
		return err
	}
	for _, s := range []struct {
		k string
		f func() float64
	}{{"Sum", t.Sum}, {"Max", t.Max}, {"Min", t.Min}, {"Avg", t.Avg}, {"Var", t.Var}, {"Std", t.Std}, {"Mean", t.Mean}} {
		tol, ok := statTol(s.k, c.V)
		if !ok {
			x.Label("not comparable: " + s.k)
			continue
		}
		if err := lib.Near(s.f(), ref.Stat(s.k, c.V), tol); err != nil {
			return fmt.Errorf("%s of a tensor of shape %v: %v", s.k, c.S, err)
		}
	}
	x.Label("rank %d", len(c.S))
	if varied([]lib.L{c}) {
		x.NonTrivial()
	}
	return nil
}

// checkEquals compares Equals with the element-wise definition.
func checkEquals(c Fwd, x *eng.Ctx) error {
	in, err := buildAll(c.Lv, c.Arg)
	if err != nil {
		return err
	}
	want := true
	a, b := c.Lv[c.Arg[0]].V, c.Lv[c.Arg[1]].V
	diff := 0
	for i := range a {
		if a[i] != b[i] {
			want = false
			diff++
		}
	}
	got, err := in[0].Equals(in[1])
	if err != nil {
		return fmt.Errorf("Equals rejected operands of the same shape %v: %v", c.Lv[c.Arg[0]].S, err)
	}
	if got != want {
		return fmt.Errorf("Equals of two tensors of shape %v is %v although %d of %d positions differ", c.Lv[c.Arg[0]].S, got, diff, len(a))
	}
	x.Label("equals %v", want)
	if diff == 1 && len(a) > 1 {
		x.Label("equals: a single position differs")
	}
	if len(a) > 1 {
		x.NonTrivial()
	}
	return nil
}

// comparable makes values of two operands either identical or far apart
// compared with the library's absolute tolerance of 1e-240.
func squashTiny(v []float64) {
	for i, x := range v {
		if math.Abs(x) < 1e-180 {
			v[i] = 0
		}
	}
}

// genComparePair draws two operands of one shape with many ties. Ordering
// (exact) is judged at any distance, equality only of values that are
// identical or clearly apart.
func genComparePair(s *eng.Src, maxElems int, exact, nan bool) []lib.L {
	sh := s.Shape(0, 6, maxElems)
	n := ref.Prod(sh)
	a := s.WildN(n)
	if !exact {
		squashTiny(a)
	}
	specials(s, a, nan)
	b := make([]float64, n)
	mode := s.Weighted(3, 3, 2, 2, 2)
	var other []float64
	if mode == 0 {
		other = s.WildN(n)
		if !exact {
			squashTiny(other)
		}
	}
	flip := -1
	if mode == 2 {
		flip = s.Intn(n)
	}
	sub := eng.NewSrc(s.Bits())
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	if mode == 4 { // the same numbers in another order
		switch s.Intn(3) {
		case 0:
			i, j := s.Intn(n), s.Intn(n)
			perm[i], perm[j] = j, i
		case 1:
			k := s.Intn(n)
			for i := range perm {
				perm[i] = (i + k) % n
			}
		default:
			perm = sub.Perm(n)
		}
	}
	for i := range b {
		b[i] = a[perm[i]]
		change := false
		switch mode {
		case 0:
			if sub.Chance(1, 2) {
				b[i] = other[i]
			}
		case 1:
			change = sub.Chance(1, 3)
		case 2:
			change = i == flip
		}
		if change {
			k := sub.Intn(5)
			if exact && sub.Bool() {
				k = 5 + sub.Intn(3)
			}
			switch k {
			case 0:
				b[i] = a[i] * (1 + 0x1p-50)
			case 5:
				b[i] = math.Nextafter(a[i], math.Inf(1))
			case 6:
				b[i] = math.Nextafter(a[i], math.Inf(-1))
			case 7:
				b[i] = math.Ldexp(sub.Unit()-0.5, sub.Range(0, 800)-1070)
			case 1:
				b[i] = a[i] * (1 - 0x1p-50)
			case 2:
				b[i] = a[i] + 1e-150
			case 3:
				b[i] = -a[i]
			default:
				b[i] = a[i] + sub.Unit() - 0.5
			}
			if math.IsInf(b[i], 0) && sub.Bool() || !exact && math.Abs(b[i]) < 1e-180 {
				b[i] = 0
			}
		}
		if b[i] == 0 && sub.Bool() {
			b[i] = math.Copysign(0, -1)
		}
		if d := math.Abs(a[i] - b[i]); !exact && d != 0 && d < 1e-200 {
			b[i] = a[i]
		}
	}
	specials(s, b, nan)
	return []lib.L{{S: sh, V: a, T: s.Bool()}, {S: append([]int{}, sh...), V: b, T: s.Bool()}}
}

func fwdPart(name string, quick, thorough int, gen func(s *eng.Src) Fwd) eng.AnyPart {
	return eng.Part[Fwd]{Name: name, Quick: quick, Thorough: thorough, Gen: gen, Check: checkFwd}
}

// fwdOf makes an enumerated case with irregular data.
func fwdOf(op ref.Op, in [][]int) Fwd {
	c := Fwd{Op: op}
	seed := eng.HashString(op.K)*31 + uint64(op.D)
	for i, s := range in {
		v := fill(eng.Mix(seed, uint64(i)), ref.Prod(s))
		c.Lv = append(c.Lv, lib.L{S: s, V: v, T: (ref.Prod(s)+i)%2 == 0})
		c.Arg = append(c.Arg, i)
	}
	return c
}

// genUnaryFwd draws an element-wise operation of one operand.
func genUnaryFwd(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		op := ref.Op{K: eng.Pick(s, ref.Unary)}
		switch op.K {
		case "Scale":
			op.A = s.Wild()
		case "Pow":
			op.A = eng.Pick(s, []float64{2, 0, 1, -1, 0.5, 3, -2, -0.5, 1.0 / 3, 10, 17, -7})
			if s.Chance(1, 3) {
				op.A = s.Nice()
			}
		}
		sh := s.Shape(0, 6, maxElems)
		n := ref.Prod(sh)
		var v []float64
		if s.Bool() {
			v = s.NiceN(n)
		} else {
			v = s.WildN(n)
		}
		specials(s, v, true)
		return Fwd{op, []lib.L{{S: sh, V: v, T: s.Bool()}}, []int{0}}
	}
}

// genBinaryFwd draws Add/Sub/Mul/Div with broadcasting, comparisons, extrema.
func genBinaryFwd(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		switch s.Weighted(6, 3, 1) {
		case 0:
			op := ref.Op{K: eng.Pick(s, ref.Arith)}
			a, b := s.BPair(0, 6, maxElems)
			f := s.Bool()
			val := func(n int) []float64 {
				v := s.NiceN(n)
				if !f {
					v = s.WildN(n)
				}
				specials(s, v, true)
				return v
			}
			return Fwd{op, []lib.L{{S: a, V: val(ref.Prod(a)), T: s.Bool()}, {S: b, V: val(ref.Prod(b)), T: s.Bool()}}, []int{0, 1}}
		case 1:
			k := eng.Pick(s, append(append([]string{}, ref.Compare...), ref.ElMM...))
			return Fwd{ref.Op{K: k}, genComparePair(s, maxElems, k != "Eq" && k != "Ne", !ref.IsElMM(k)), []int{0, 1}}
		default: // an operand with itself
			k := eng.Pick(s, append(append(append([]string{}, ref.Compare...), ref.ElMM...), ref.Arith...))
			sh := s.Shape(0, 6, maxElems)
			v := s.NiceN(ref.Prod(sh))
			if s.Bool() {
				v = s.WildN(len(v))
			}
			return Fwd{ref.Op{K: k}, []lib.L{{S: sh, V: v, T: s.Bool()}}, []int{0, 0}}
		}
	}
}

func C03() *eng.Prop {
	all := append(append(append(append([]string{}, ref.Unary...), ref.Arith...), ref.Compare...), ref.ElMM...)
	return &eng.Prop{
		ID:     "C03",
		QuickX: 2,
		Rule:   "a case is non-trivial when the operand data holds at least two different values and every result element was compared with the scalar function applied at its position",
		Parts: []eng.AnyPart{
			eng.Part[Fwd]{Name: "all small shapes and shape pairs", Check: checkFwd, Enum: func(th bool, yield func(Fwd) bool) {
				stop := false
				enumOps(all, 3, 3, true, func(op ref.Op, in [][]int) bool {
					stop = !yield(fwdOf(op, in))
					return !stop
				})
				if stop {
					return
				}
				if th {
					enumOps(append(append([]string{}, ref.Arith...), "Exp", "Gt"), 4, 3, true, func(op ref.Op, in [][]int) bool { return yield(fwdOf(op, in)) })
				}
			}},
			seqPart(40000, 1500000, seqArith(), []string{qEquals}, 40, true),
			fwdPart("random unary", 60000, 2500000, genUnaryFwd(60)),
			fwdPart("random binary", 120000, 5000000, genBinaryFwd(60)),
			fwdPart("large unary", 1200, 40000, eng.Large(genUnaryFwd(100000))),
			fwdPart("large binary", 2500, 80000, eng.Large(genBinaryFwd(70000))),
			fwdPart("huge unary", 40, 2000, eng.Huge(genUnaryFwd(140000))),
			fwdPart("huge binary", 60, 3000, eng.Huge(genBinaryFwd(140000))),
			eng.Part[Fwd]{Name: "equals", Quick: 30000, Thorough: 800000, Check: checkEquals, Gen: func(s *eng.Src) Fwd {
				return Fwd{ref.Op{K: "Eq"}, genComparePair(s, 120, false, true), []int{0, 1}}
			}},
			eng.Part[Fwd]{Name: "large equals", Quick: 800, Thorough: 30000, Check: checkEquals, Gen: eng.Large(func(s *eng.Src) Fwd {
				return Fwd{ref.Op{K: "Eq"}, genComparePair(s, 100000, false, true), []int{0, 1}}
			})},
		},
		Assumptions: []string{
			"Eq/Ne/Equals operands are identical or at least 1e-200 apart (the library's equality has an absolute threshold of 1e-240); the orderings are judged at any distance",
			"infinities and NaNs among the operands follow IEEE arithmetic and the math package; ElMax and ElMin of a NaN are left open",
			"a few units in the last place of rounding are allowed for arithmetic, 1e-12 relative for the elementary functions",
		},
	}
}

// trimProduct halves the largest dimensions until the work is moderate.
func trimProduct(a, b []int, mat bool) {
	ra, rb := len(a), len(b)
	for {
		w := 1.0
		for i := 1; i <= max(ra, rb); i++ {
			x, y := 1, 1
			if i <= ra {
				x = a[ra-i]
			}
			if i <= rb {
				y = b[rb-i]
			}
			if mat && i <= 2 {
				w *= float64(x)
				if i == 1 {
					w *= float64(y)
				}
				continue
			}
			w *= float64(max(x, y))
		}
		if w <= 400000 {
			return
		}
		d, p := a, 0
		for i := range a {
			if a[i] > d[p] {
				p = i
			}
		}
		for i := range b {
			if b[i] > d[p] {
				d, p = b, i
			}
		}
		old := d[p]
		// dimensions that have to agree are halved together
		if mat && (&d[0] == &a[0] && p == ra-1 || &d[0] == &b[0] && p == rb-2) {
			a[ra-1], b[rb-2] = old/2, old/2
			continue
		}
		if mat && (&d[0] == &a[0] && p == ra-2 || &d[0] == &b[0] && p == rb-1) {
			d[p] = old / 2
			continue
		}
		i := len(d) - p
		if i <= ra && a[ra-i] == old {
			a[ra-i] = old / 2
		}
		if i <= rb && b[rb-i] == old {
			b[rb-i] = old / 2
		}
	}
}

// structure gives the matrices in v (the last two dimensions of sh) a form that
// algorithms like to single out: near identities, permutations, triangular,
// symmetric or balanced matrices, few distinct entries.
func structure(s *eng.Src, sh []int, v []float64) {
	r := len(sh)
	m, n := sh[r-2], sh[r-1]
	every := s.Bool()
	kind := s.Intn(10)
	ints := s.Bool()
	for b := 0; b+m*n <= len(v); b += m * n {
		a := v[b : b+m*n]
		if b > 0 && !every {
			kind = s.Intn(10)
		}
		at := func(i, j int) *float64 { return &a[i*n+j] }
		if ints {
			for i := range a {
				a[i] = math.Round(math.Mod(a[i], 3))
			}
		}
		switch kind {
		case 0: // unit diagonal, the rest balanced
			for i := range m {
				for j := range n {
					switch {
					case i == j:
						*at(i, j) = 1
					case j < i && i < n && j < m:
						*at(i, j) = -*at(j, i)
					}
				}
			}
		case 1: // the identity, perhaps with one odd entry
			for i := range m {
				for j := range n {
					*at(i, j) = 0
					if i == j {
						*at(i, j) = 1
					}
				}
			}
			if s.Bool() {
				*at(s.Intn(m), s.Intn(n)) = s.Nice()
			}
		case 2: // a permutation
			q := s.Perm(max(m, n))
			for i := range m {
				for j := range n {
					*at(i, j) = 0
					if q[i] == j {
						*at(i, j) = 1
					}
				}
			}
		case 3, 4: // symmetric, perhaps with one odd entry; or only on the border
			for i := range min(m, n) {
				for j := range i {
					if kind == 3 || j == 0 {
						*at(i, j) = *at(j, i)
					}
				}
			}
			if kind == 3 && s.Bool() {
				*at(s.Intn(m), s.Intn(n)) = s.Nice()
			}
		case 5: // triangular
			up := s.Bool()
			for i := range m {
				for j := range n {
					if up && j < i || !up && j > i {
						*at(i, j) = 0
					}
				}
			}
		case 6: // diagonal
			for i := range m {
				for j := range n {
					if i != j {
						*at(i, j) = 0
					}
				}
			}
		case 7: // a zero row or column
			if k := s.Intn(m + n); k < m {
				for j := range n {
					*at(k, j) = 0
				}
			} else {
				for i := range m {
					*at(i, k-m) = 0
				}
			}
		case 8: // equal rows
			for i := 1; i < m; i++ {
				copy(a[i*n:i*n+n], a[:n])
			}
		case 9: // every row balanced
			for i := range m {
				t := 0.0
				for j := 0; j < n-1; j++ {
					t += *at(i, j)
				}
				*at(i, n-1) = -t
			}
		}
	}
}

// genProduct draws operands of Dot or MatMul with broadcast batch dimensions.
func genProduct(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		var c Fwd
		a, b := s.BPair(0, 4, max(1, maxElems/6))
		dim := func() int {
			if s.Big && s.Chance(1, 2) {
				return s.Size(1, 600)
			}
			return s.Range(1, 5)
		}
		if s.Chance(2, 5) {
			c.Op.K = "Dot"
			k := dim()
			a, b = append(a, k), append(b, k)
		} else {
			c.Op.K = "MatMul"
			m, k, n := dim(), dim(), dim()
			a, b = append(a, m, k), append(b, k, n)
		}
		if s.Floor > 0 {
			// one huge dimension or batch instead
			a, b = []int{s.Range(1, 3), s.Range(1, 3)}, nil
			b = []int{a[1], s.Range(1, 3)}
			k := s.Size(1, maxElems)
			switch {
			case c.Op.K == "Dot":
				a, b = []int{k, 2}, []int{k, 2}
				if s.Bool() {
					a, b = []int{2, k}, []int{k}
				}
			case s.Chance(1, 4):
				a[0] = k
			case s.Chance(1, 3):
				a[1], b[0] = k, k
			case s.Chance(1, 2):
				b[1] = k
			default:
				a, b = append([]int{k}, a...), append([]int{eng.Pick(s, []int{1, k})}, b...)
			}
		} else if s.Big {
			trimProduct(a, b, c.Op.K == "MatMul")
		}
		f := s.Weighted(3, 2, 1)
		val := func(n int) []float64 {
			switch f {
			case 0:
				return s.NiceN(n)
			case 1:
				return s.Floats(n, func(s *eng.Src) float64 { return float64(s.Range(0, 200) - 100) })
			}
			v := s.WildN(n)
			for i := range v {
				if math.Abs(v[i]) > 1e100 {
					v[i] = math.Copysign(1e100, v[i])
				}
			}
			return v
		}
		c.Lv = []lib.L{{S: a, V: val(ref.Prod(a)), T: s.Bool()}, {S: b, V: val(ref.Prod(b)), T: s.Bool()}}
		c.Arg = []int{0, 1}
		if c.Op.K == "MatMul" && s.Chance(1, 3) {
			for _, l := range c.Lv {
				if s.Bool() {
					structure(s, l.S, l.V)
				}
			}
		}
		if c.Op.K == "Dot" && s.Chance(1, 12) {
			c.Lv, c.Arg = c.Lv[:1], []int{0, 0}
		}
		for _, l := range c.Lv {
			specials(s, l.V, true)
		}
		return c
	}
}

func genTranspose(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		sh := s.Shape(2, 6, maxElems)
		if s.Bool() {
			sh[len(sh)-1] = sh[len(sh)-2]
			for ref.Prod(sh) > 4*maxElems {
				sh[len(sh)-1] /= 2
				sh[len(sh)-2] = sh[len(sh)-1]
			}
		}
		v := s.WildN(ref.Prod(sh))
		if s.Chance(1, 3) {
			structure(s, sh, v)
		}
		return Fwd{ref.Op{K: "Transpose"}, []lib.L{{S: sh, V: v, T: s.Bool()}}, []int{0}}
	}
}

// checkIdent checks A.I = A, I.A = A, (A.B)^T = B^T.A^T, (A^T)^T = A, and
// Dot(a,b) against MatMul of a row and a column.
func checkIdent(c Fwd, x *eng.Ctx) error {
	// the identities are those of finite matrices
	for _, l := range c.Lv {
		for i, v := range l.V {
			if !finite(v) {
				l.V[i] = 1
			}
		}
	}
	in, err := buildAll(c.Lv, c.Arg)
	if err != nil {
		return err
	}
	o, rin := refForward(c.Op, c.Lv, c.Arg)
	tol, ok := fwdTol(c.Op, rin, o)
	if !ok {
		x.Skip()
		return nil
	}
	ap := func(k string, t ...lib.Tensor) lib.Tensor {
		if err != nil {
			return nil
		}
		var y lib.Tensor
		y, err = lib.Apply(ref.Op{K: k}, t...)
		return y
	}
	un := func(d int, t lib.Tensor) lib.Tensor {
		if err != nil {
			return nil
		}
		var y lib.Tensor
		y, err = lib.Apply(ref.Op{K: "UnSqueeze", D: d}, t)
		return y
	}
	exact := func(what string, y lib.Tensor, l lib.L) error {
		if err != nil {
			return err
		}
		return lib.CheckNear(what, y, l.S, l.V, func(p int) float64 { return 1e-318 })
	}
	a, b := in[0], in[1]
	la, lb := c.Lv[c.Arg[0]], c.Lv[c.Arg[1]]
	if c.Op.K == "Dot" {
		y := ap("Dot", a, b)
		z := ap("MatMul", un(len(la.S)-1, a), un(len(lb.S), b))
		if err != nil {
			return err
		}
		_, v, err := lib.Read(z)
		if err != nil {
			return err
		}
		x.NonTrivial()
		return lib.CheckNear("Dot against MatMul of a row and a column", y, o.Shape, v, func(p int) float64 { return 2 * tol[p] })
	}
	r := len(la.S)
	eye := func(n int) lib.Tensor {
		if err != nil {
			return nil
		}
		var e lib.Tensor
		e, err = eyeOf(n)
		return e
	}
	if e := exact("A.I", ap("MatMul", a, eye(la.S[r-1])), la); e != nil {
		return e
	}
	if e := exact("I.A", ap("MatMul", eye(la.S[r-2]), a), la); e != nil {
		return e
	}
	if e := exact("transpose of the transpose", ap("Transpose", ap("Transpose", b)), lb); e != nil {
		return e
	}
	l := ap("Transpose", ap("MatMul", a, b))
	m := ap("MatMul", ap("Transpose", b), ap("Transpose", a))
	if err != nil {
		return err
	}
	sl, vl, err := lib.Read(l)
	if err != nil {
		return err
	}
	ot := ref.NewTape()
	ot.NoGrad = true
	tt := ot.Apply(ref.Op{K: "Transpose"}, &ref.T{Shape: o.Shape, V: tol})
	x.NonTrivial()
	return lib.CheckNear("(A.B)^T against B^T.A^T", m, sl, vl, func(p int) float64 { return 2 * tt.V[p] })
}

func C04() *eng.Prop {
	return &eng.Prop{
		ID:     "C04",
		QuickX: 2,
		Rule:   "a case is non-trivial when the operand data holds at least two different values and every result element was compared with the defined sum of products (or both sides of an identity were compared)",
		Parts: []eng.AnyPart{
			eng.Part[Fwd]{Name: "all small shape pairs", Check: checkFwd, Enum: func(th bool, yield func(Fwd) bool) {
				more := func(op ref.Op, in [][]int) bool { return yield(fwdOf(op, in)) }
				ok := true
				wrap := func(op ref.Op, in [][]int) bool { ok = more(op, in); return ok }
				enumOps([]string{"Dot", "MatMul", "Transpose"}, 3, 3, true, wrap)
				// all batch pairs of up to two dimensions with several matrix sizes
				bs := shapesUpTo(2, 3)
				if th {
					bs = shapesUpTo(3, 3)
				}
				for _, p := range bs {
					for _, q := range bs {
						if _, k := ref.BroadcastShape(p, q); !k || !ok {
							continue
						}
						for _, mkn := range [][3]int{{1, 1, 1}, {2, 3, 4}, {3, 2, 1}, {1, 4, 2}, {4, 1, 3}} {
							a := append(append([]int{}, p...), mkn[0], mkn[1])
							b := append(append([]int{}, q...), mkn[1], mkn[2])
							if !wrap(ref.Op{K: "MatMul"}, [][]int{a, b}) {
								return
							}
						}
						for _, k := range []int{1, 2, 5} {
							a := append(append([]int{}, p...), k)
							b := append(append([]int{}, q...), k)
							if !wrap(ref.Op{K: "Dot"}, [][]int{a, b}) {
								return
							}
						}
					}
				}
				for m := 1; m <= 5; m++ {
					for k := 1; k <= 5; k++ {
						for n := 1; n <= 5; n++ {
							if !wrap(ref.Op{K: "MatMul"}, [][]int{{m, k}, {k, n}}) || !wrap(ref.Op{K: "MatMul"}, [][]int{{2, m, k}, {2, k, n}}) {
								return
							}
						}
						if !wrap(ref.Op{K: "Transpose"}, [][]int{{m, k}}) || !wrap(ref.Op{K: "Transpose"}, [][]int{{2, 3, m, k}}) || !wrap(ref.Op{K: "Transpose"}, [][]int{{2, 1, 3, 2, m, k}}) {
							return
						}
					}
				}
			}},
			seqPart(25000, 1000000, []string{"MatMul", "MatMul", "Dot", "Transpose", "MatMul", "Transpose", "Add", "Scale"}, nil, 36, false),
			fwdPart("random products", 120000, 4000000, genProduct(60)),
			fwdPart("random transposes", 30000, 800000, genTranspose(60)),
			fwdPart("large products", 1500, 60000, eng.Large(genProduct(12000))),
			fwdPart("large transposes", 800, 30000, eng.Large(genTranspose(60000))),
			fwdPart("huge products", 50, 2000, eng.Huge(genProduct(140000))),
			fwdPart("huge transposes", 24, 1000, eng.Huge(genTranspose(140000))),
			eng.Part[Fwd]{Name: "large identities", Quick: 300, Thorough: 12000, Gen: eng.Large(genProduct(6000)), Check: checkIdent},
			eng.Part[Fwd]{Name: "identities", Quick: 20000, Thorough: 600000, Gen: genProduct(40), Check: checkIdent},
		},
		Assumptions: []string{"rounding of 4(k+2) units in the last place of the sum of the products' magnitudes is allowed; sums beyond 1e300 are skipped"},
	}
}

func genReduce(maxElems int) func(s *eng.Src) Fwd {
	return func(s *eng.Src) Fwd {
		l := genStat(maxElems, 1)(s)
		op := ref.Op{K: eng.Pick(s, ref.Reduce), D: s.Intn(len(l.S))}
		return Fwd{op, []lib.L{l}, []int{0}}
	}
}

func genStat(maxElems, lo int) func(s *eng.Src) lib.L {
	return func(s *eng.Src) lib.L {
		sh := s.Shape(lo, 6, maxElems)
		n := ref.Prod(sh)
		var v []float64
		switch s.Weighted(4, 3, 2, 1, 1) {
		case 0:
			v = s.NiceN(n)
		case 1:
			v = s.WildN(n)
		case 2: // large common offset
			v = s.NiceN(n)
			off := eng.Pick(s, []float64{1e6, -1e8, 1e10, -1e3, 1e12})
			for i := range v {
				v[i] += off
			}
		case 3: // one sign only
			v = s.NiceN(n)
			sg := eng.Pick(s, []float64{1, -1})
			for i := range v {
				v[i] = sg * (math.Abs(v[i]) + 0.5)
			}
		default: // all huge or all tiny
			v = s.NiceN(n)
			k := eng.Pick(s, []int{-300, 300, -60, 100, 400, -480, 900})
			for i := range v {
				v[i] = math.Ldexp(v[i], k)
			}
		}
		specials(s, v, true)
		return lib.L{S: sh, V: v, T: s.Bool()}
	}
}

// checkStatAlong also ties the Along form of a rank-1 tensor to the whole.
func checkReduceCons(c lib.L, x *eng.Ctx) error {
	if err := checkStat(c, x); err != nil {
		return err
	}
	t, err := lib.Build([]int{len(c.V)}, c.V, c.T)
	if err != nil {
		return err
	}
	for _, s := range []struct {
		k string
		f func() float64
	}{{"Sum", t.Sum}, {"Max", t.Max}, {"Min", t.Min}, {"Avg", t.Avg}, {"Var", t.Var}, {"Std", t.Std}, {"Mean", t.Mean}} {
		tol, ok := statTol(s.k, c.V)
		if !ok {
			continue
		}
		y, err := lib.Apply(ref.Op{K: s.k + "Along"}, t)
		if err != nil {
			return err
		}
		if err := lib.CheckNear(s.k+"Along of the only dimension", y, []int{}, []float64{s.f()}, func(int) float64 { return 2 * tol }); err != nil {
			return err
		}
	}
	return nil
}

func C05() *eng.Prop {
	return &eng.Prop{
		ID:     "C05",
		QuickX: 2,
		Rule:   "a case is non-trivial when the operand data holds at least two different values and every statistic was compared with the definition on its fibre (or on the whole tensor)",
		Parts: []eng.AnyPart{
			eng.Part[Fwd]{Name: "all small shapes and dims", Check: checkFwd, Enum: func(th bool, yield func(Fwd) bool) {
				r, d := 4, 3
				if th {
					r, d = 5, 4
				}
				enumOps(ref.Reduce, r, d, false, func(op ref.Op, in [][]int) bool { return yield(fwdOf(op, in)) })
			}},
			eng.Part[lib.L]{Name: "all small shapes, whole tensor", Check: checkStat, Enum: func(th bool, yield func(lib.L) bool) {
				for _, s := range shapesUpTo(5, 3) {
					if !yield(lib.L{S: s, V: fill(5, ref.Prod(s))}) {
						return
					}
				}
			}},
			seqPart(30000, 1200000, append([]string{"Scale", "Slice", "Reshape", "Transpose", "Add"}, append(append([]string{}, ref.Reduce...), ref.Reduce...)...), wholeStats, 60, true),
			fwdPart("random reduction along a dimension", 100000, 4000000, genReduce(60)),
			fwdPart("large reduction along a dimension", 3000, 80000, eng.Large(genReduce(80000))),
			fwdPart("huge reduction along a dimension", 50, 2000, eng.Huge(genReduce(140000))),
			eng.Part[lib.L]{Name: "huge whole-tensor statistics", Quick: 24, Thorough: 1000, Gen: eng.Huge(genStat(140000, 0)), Check: checkReduceCons},
			eng.Part[lib.L]{Name: "random whole-tensor statistics", Quick: 40000, Thorough: 1500000, Gen: genStat(60, 0), Check: checkStat},
			eng.Part[lib.L]{Name: "large whole-tensor statistics", Quick: 1500, Thorough: 50000, Gen: eng.Large(genStat(100000, 0)), Check: checkReduceCons},
		},
		Assumptions: []string{"the rounding of any two-pass (or Welford) computation is allowed; sums beyond 1e300 and variances of values beyond 1e150 are skipped", "sums, means and extrema of infinite elements follow IEEE arithmetic; variances of infinite elements and extrema of NaNs are left open"},
	}
}
