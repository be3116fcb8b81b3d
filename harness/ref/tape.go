package ref

import "math"

// Tape records, for every element of every tensor, the partial derivatives
// with respect to the elements it was computed from.
type Tape struct {
	val   []float64
	start []int32
	par   []int32
	pd    []float64
	alt   []float64 // as pd, with explicit Broadcast averaging (known finding)
	pu    []float64 // uncertainty of pd by rounding

	NoGrad bool
	// NonDiff is set when an operation was applied at a point where it is not
	// differentiable (or too close to one to tell).
	NonDiff bool
	// Expanding is set when an explicit Broadcast expanded something.
	Expanding bool
	// Margin for NonDiff decisions.
	Margin float64
}

func NewTape() *Tape { return &Tape{Margin: 1e-7} }

func (t *Tape) Leaf(shape []int, v []float64) *T {
	o := &T{Shape: append([]int{}, shape...), V: v, ID: len(t.val)}
	for _, x := range v {
		t.node(x)
	}
	return o
}

func (t *Tape) node(v float64) {
	t.val = append(t.val, v)
	t.start = append(t.start, int32(len(t.par)))
}

const eps = 0x1p-52

func (t *Tape) edge(p int, d float64) { t.edge3(p, d, d, 4*eps*math.Abs(d)) }

func (t *Tape) edge3(p int, d, alt, u float64) {
	if t.NoGrad {
		return
	}
	if math.IsNaN(d) || math.IsInf(d, 0) {
		t.NonDiff = true // the derivative leaves the range of float64
	}
	t.par = append(t.par, int32(p))
	t.pd = append(t.pd, d)
	t.alt = append(t.alt, alt)
	t.pu = append(t.pu, u)
}

func (t *Tape) nonDiff() { t.NonDiff = true }

// Apply evaluates op on valid operands.
func (t *Tape) Apply(op Op, in ...*T) *T {
	shapes := make([][]int, len(in))
	for i, x := range in {
		shapes[i] = x.Shape
	}
	shape, ok := OutShape(op, shapes...)
	if !ok {
		panic("ref: invalid operands for " + op.K)
	}
	n := Prod(shape)
	o := &T{Shape: shape, V: make([]float64, n), ID: len(t.val)}
	emit := func(p int, v float64) {
		o.V[p] = v
		t.node(v)
	}
	// gather: each result element is a copy of one operand element
	gather := func(src *T, m func(p int) int, alt float64) {
		for p := 0; p < n; p++ {
			q := m(p)
			emit(p, src.V[q])
			t.edge3(src.ID+q, 1, alt, 0)
		}
	}
	switch {
	case IsUnary(op.K):
		x := in[0]
		for p := range x.V {
			emit(p, UnaryF(op.K, op.A, x.V[p]))
			if t.NoGrad {
				continue
			}
			d, ok := UnaryD(op.K, op.A, x.V[p])
			if !ok {
				t.nonDiff()
				d = 0
			}
			u := 64 * eps * math.Abs(d)
			switch op.K {
			case "Tanh", "Sinh", "Cosh", "Sin", "Cos":
				u += 64 * eps
			case "Tan":
				u *= 1 + math.Abs(o.V[p])
			}
			t.edge3(x.ID+p, d, d, u)
		}
		return o
	case IsCompare(op.K):
		for p := range o.V {
			emit(p, BinaryF(op.K, in[0].V[p], in[1].V[p]))
		}
		return o
	case IsElMM(op.K):
		a, b := in[0], in[1]
		for p := range o.V {
			x, y := a.V[p], b.V[p]
			emit(p, BinaryF(op.K, x, y))
			if t.NoGrad {
				continue
			}
			if a.ID+p == b.ID+p && a.ID == b.ID {
				t.edge(a.ID+p, 1)
				continue
			}
			if math.Abs(x-y) <= t.Margin*math.Max(math.Abs(x), math.Abs(y)) {
				t.nonDiff()
			}
			if (x > y) == (op.K == "ElMax") {
				t.edge(a.ID+p, 1)
			} else {
				t.edge(b.ID+p, 1)
			}
		}
		return o
	case IsArith(op.K):
		a, b := in[0], in[1]
		ma, mb := BroadcastMap(a.Shape, shape), BroadcastMap(b.Shape, shape)
		for p := range o.V {
			x, y := a.V[ma[p]], b.V[mb[p]]
			emit(p, BinaryF(op.K, x, y))
			i, j := a.ID+ma[p], b.ID+mb[p]
			switch op.K {
			case "Add":
				t.edge(i, 1)
				t.edge(j, 1)
			case "Sub":
				t.edge(i, 1)
				t.edge(j, -1)
			case "Mul":
				t.edge(i, y)
				t.edge(j, x)
			case "Div":
				t.edge(i, 1/y)
				t.edge(j, -(x/y)/y)
			}
		}
		return o
	case IsReduce(op.K):
		t.reduce(op, in[0], o, emit)
		return o
	}
	switch op.K {
	case "Slice":
		r := CompleteRanges(op.R, in[0].Shape)
		st := Strides(in[0].Shape)
		ix := make([]int, len(shape))
		gather(in[0], func(p int) int {
			Unflat(p, shape, ix)
			q := 0
			for i := range ix {
				q += (ix[i] + r[i][0]) * st[i]
			}
			return q
		}, 1)
	case "Patch":
		x, s := in[0], in[1]
		r := make([]int, len(shape))
		for i := range r {
			if i < len(op.R) && op.R[i] != [2]int{0, 0} {
				r[i] = op.R[i][0]
			}
		}
		ss := Strides(s.Shape)
		ix := make([]int, len(shape))
		for p := range o.V {
			Unflat(p, shape, ix)
			q, inside := 0, true
			for i := range ix {
				k := ix[i] - r[i]
				if k < 0 || k >= s.Shape[i] {
					inside = false
					break
				}
				q += k * ss[i]
			}
			if inside {
				emit(p, s.V[q])
				t.edge(s.ID+q, 1)
			} else {
				emit(p, x.V[p])
				t.edge(x.ID+p, 1)
			}
		}
	case "Transpose":
		m, k := shape[len(shape)-2], shape[len(shape)-1]
		gather(in[0], func(p int) int {
			b, r := p/(m*k), p%(m*k)
			return b*m*k + (r%k)*m + r/k
		}, 1)
	case "Reshape", "UnSqueeze", "Squeeze", "Flatten":
		gather(in[0], func(p int) int { return p }, 1)
	case "Broadcast":
		m := BroadcastMap(in[0].Shape, shape)
		f := float64(Prod(in[0].Shape)) / float64(n)
		if f != 1 {
			t.Expanding = true
		}
		gather(in[0], func(p int) int { return m[p] }, f)
	case "Dot":
		a, b := in[0], in[1]
		k := a.Shape[len(a.Shape)-1]
		ma := BroadcastMap(a.Shape[:len(a.Shape)-1], shape)
		mb := BroadcastMap(b.Shape[:len(b.Shape)-1], shape)
		for p := range o.V {
			s := 0.0
			for q := 0; q < k; q++ {
				s += a.V[ma[p]*k+q] * b.V[mb[p]*k+q]
			}
			emit(p, s)
			for q := 0; q < k; q++ {
				i, j := ma[p]*k+q, mb[p]*k+q
				t.edge(a.ID+i, b.V[j])
				t.edge(b.ID+j, a.V[i])
			}
		}
	case "MatMul":
		a, b := in[0], in[1]
		m, k := a.Shape[len(a.Shape)-2], a.Shape[len(a.Shape)-1]
		c := b.Shape[len(b.Shape)-1]
		bs := shape[:len(shape)-2]
		ma := BroadcastMap(a.Shape[:len(a.Shape)-2], bs)
		mb := BroadcastMap(b.Shape[:len(b.Shape)-2], bs)
		for p := range o.V {
			bt, r := p/(m*c), p%(m*c)
			row, col := r/c, r%c
			s := 0.0
			for q := 0; q < k; q++ {
				s += a.V[ma[bt]*m*k+row*k+q] * b.V[mb[bt]*k*c+q*c+col]
			}
			emit(p, s)
			for q := 0; q < k; q++ {
				i, j := ma[bt]*m*k+row*k+q, mb[bt]*k*c+q*c+col
				t.edge(a.ID+i, b.V[j])
				t.edge(b.ID+j, a.V[i])
			}
		}
	case "Concat":
		st := make([]int, len(in)+1)
		for i, x := range in {
			st[i+1] = st[i] + x.Shape[op.D]
		}
		ix := make([]int, len(shape))
		for p := range o.V {
			Unflat(p, shape, ix)
			w := 0
			for ix[op.D] >= st[w+1] {
				w++
			}
			q := 0
			for i, d := range in[w].Shape {
				v := ix[i]
				if i == op.D {
					v -= st[w]
				}
				q = q*d + v
			}
			emit(p, in[w].V[q])
			t.edge(in[w].ID+q, 1)
		}
	default:
		panic("ref: unknown op " + op.K)
	}
	return o
}

func (t *Tape) reduce(op Op, x *T, o *T, emit func(int, float64)) {
	d := x.Shape[op.D]
	inner := Prod(x.Shape[op.D+1:])
	fib := make([]float64, d)
	id := make([]int, d)
	stat := op.K[:len(op.K)-len("Along")]
	for p := range o.V {
		base := (p/inner)*d*inner + p%inner
		big := 0.0
		for q := 0; q < d; q++ {
			id[q] = x.ID + base + q*inner
			fib[q] = x.V[base+q*inner]
			big = math.Max(big, math.Abs(fib[q]))
		}
		r := Stat(stat, fib)
		emit(p, r)
		if t.NoGrad {
			continue
		}
		n := float64(d)
		switch stat {
		case "Sum":
			for q := range fib {
				t.edge(id[q], 1)
			}
		case "Avg", "Mean":
			for q := range fib {
				t.edge(id[q], 1/n)
			}
		case "Max", "Min":
			best := 0
			for q := range fib {
				if fib[q] == r {
					best = q
					break
				}
			}
			for q := range fib {
				if q != best && math.Abs(fib[q]-r) <= t.Margin*math.Max(math.Abs(fib[q]), math.Abs(r)) {
					t.nonDiff()
				}
			}
			t.edge(id[best], 1)
		case "Var", "Std":
			if d == 1 {
				t.edge(id[0], 0)
				break
			}
			u := ksum(fib) / n
			for q := range fib {
				dv := fib[q] - u
				unc := 8 * eps * (big*n + math.Abs(dv))
				if stat == "Var" {
					g := 2 * dv / (n - 1)
					t.edge3(id[q], g, g, 2*unc/(n-1)+8*eps*math.Abs(g))
					continue
				}
				if r <= t.Margin*big || r < 1e-140 { // squares below the range of float64
					t.nonDiff()
					t.edge(id[q], 0)
					continue
				}
				g := dv / r / (n - 1)
				t.edge3(id[q], g, g, unc/r/(n-1)*4+16*eps*math.Abs(g))
			}
		}
	}
}

// Adj holds the derivatives of the (weighted) sum of a root's elements with
// respect to every tape element: D is the derivative, Alt the variant in which
// explicit broadcasts average, Abs the sum of the magnitudes of all path
// contributions, Err a bound on the rounding uncertainty of the partials.
type Adj struct{ D, Alt, Abs, Err []float64 }

func (t *Tape) NewAdj() *Adj {
	n := len(t.val)
	return &Adj{make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)}
}

// Back back-propagates from root with weight 1 on every element.
func (t *Tape) Back(root *T) *Adj { return t.BackW(root, nil) }

func (t *Tape) BackW(root *T, w []float64) *Adj {
	a := t.NewAdj()
	n := len(root.V)
	for i := 0; i < n; i++ {
		x := 1.0
		if w != nil {
			x = w[i]
		}
		a.D[root.ID+i] = x
		a.Alt[root.ID+i] = x
		a.Abs[root.ID+i] = math.Abs(x)
	}
	for k := root.ID + n - 1; k >= 0; k-- {
		if a.Abs[k] == 0 && a.Err[k] == 0 {
			continue
		}
		e1 := len(t.par)
		if k+1 < len(t.start) {
			e1 = int(t.start[k+1])
		}
		for e := int(t.start[k]); e < e1; e++ {
			p := t.par[e]
			a.D[p] += a.D[k] * t.pd[e]
			a.Alt[p] += a.Alt[k] * t.alt[e]
			ab := math.Abs(t.pd[e])
			a.Abs[p] += a.Abs[k] * ab
			a.Err[p] += a.Err[k]*ab + (a.Abs[k]+a.Err[k])*t.pu[e]
		}
	}
	return a
}

// Of extracts the part of a tape-wide vector that belongs to x.
func Of(v []float64, x *T) []float64 { return v[x.ID : x.ID+len(x.V)] }

// Add accumulates b into a (tapes only grow: b may be longer).
func (a *Adj) Add(b *Adj) {
	grow := func(x []float64, n int) []float64 {
		for len(x) < n {
			x = append(x, 0)
		}
		return x
	}
	n := len(b.D)
	a.D, a.Alt, a.Abs, a.Err = grow(a.D, n), grow(a.Alt, n), grow(a.Abs, n), grow(a.Err, n)
	for i := range b.D {
		a.D[i] += b.D[i]
		a.Alt[i] += b.Alt[i]
		a.Abs[i] += b.Abs[i]
		a.Err[i] += b.Err[i]
	}
}

// SetValues replaces the values of a result (and recomputes nothing): later
// operations use the new values. Partials already recorded for the element's
// own edges stay as they are.
func (t *Tape) SetValues(x *T, v []float64) {
	copy(x.V, v)
	copy(t.val[x.ID:], v)
}
