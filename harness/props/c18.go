package props

import (
	"fmt"
	"math"
	"sort"

	"qv/eng"
	"qv/lib"
	"qv/ref"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// RInit is an initializer or a random constructor with its parameters.
type RInit struct {
	K   string `json:"k"` // full, uniform, normal, heu, hen, xu, xn, RandU, RandN
	A   lib.F1 `json:"a"` // lower bound, mean or constant
	B   lib.F1 `json:"b"` // upper bound or standard deviation
	FI  int    `json:"fi,omitempty"`
	FO  int    `json:"fo,omitempty"`
	Nil bool   `json:"nil,omitempty"` // nil config
	Cf  int    `json:"cf,omitempty"`  // RandU, RandN: 0 tracked, 1 untracked, 2 nil config
}

func (r RInit) uniform() bool {
	return r.K == "uniform" || r.K == "heu" || r.K == "xu" || r.K == "RandU"
}

// params are the parameters of the distribution by the formulas of the
// property: bounds [a,b), or mean a and deviation b.
func (r RInit) params() (a, b float64) {
	fi, fo := float64(r.FI), float64(r.FO)
	switch r.K {
	case "uniform":
		if r.Nil {
			return -0.05, 0.05
		}
	case "normal":
		if r.Nil {
			return 0, 0.05
		}
	case "heu":
		return -math.Sqrt(6 / fi), math.Sqrt(6 / fi)
	case "hen":
		return 0, math.Sqrt(2 / fi)
	case "xu":
		return -math.Sqrt(6 / (fi + fo)), math.Sqrt(6 / (fi + fo))
	case "xn":
		return 0, math.Sqrt(2 / (fi + fo))
	case "full":
		if r.Nil {
			return 0, 0
		}
	}
	return float64(r.A), float64(r.B)
}

func (r RInit) String() string {
	a, b := r.params()
	if r.K == "heu" || r.K == "hen" || r.K == "xu" || r.K == "xn" {
		return fmt.Sprintf("%s(fanIn=%d fanOut=%d)", r.K, r.FI, r.FO)
	}
	if r.Nil {
		return fmt.Sprintf("%s(nil)", r.K)
	}
	return fmt.Sprintf("%s(%v, %v)", r.K, a, b)
}

// make returns the function that draws a tensor.
func (r RInit) make() (func(shape []int) (tensor.Tensor, error), error) {
	var i layers.Initializer
	var err error
	switch r.K {
	case "full":
		if r.Nil {
			i = initializers.NewFull(nil)
		} else {
			cf := &initializers.FullConfig{Value: float64(r.A)}
			i = initializers.NewFull(cf)
			cf.Value++ // the config stays the caller's
		}
	case "uniform":
		if r.Nil {
			i, err = initializers.NewUniform(nil)
		} else {
			cf := &initializers.UniformConfig{Lower: float64(r.A), Upper: float64(r.B)}
			i, err = initializers.NewUniform(cf)
			cf.Lower, cf.Upper = cf.Upper, 2*cf.Upper-cf.Lower
		}
	case "normal":
		if r.Nil {
			i, err = initializers.NewNormal(nil)
		} else {
			cf := &initializers.NormalConfig{Mean: float64(r.A), StdDev: float64(r.B)}
			i, err = initializers.NewNormal(cf)
			cf.Mean, cf.StdDev = cf.Mean+cf.StdDev, 2*cf.StdDev
		}
	case "heu":
		cf := &initializers.HeUniformConfig{FanIn: r.FI}
		i, err = initializers.NewHeUniform(cf)
		cf.FanIn = 3*cf.FanIn + 1
	case "hen":
		cf := &initializers.HeNormalConfig{FanIn: r.FI}
		i, err = initializers.NewHeNormal(cf)
		cf.FanIn = 3*cf.FanIn + 1
	case "xu":
		cf := &initializers.XavierUniformConfig{FanIn: r.FI, FanOut: r.FO}
		i, err = initializers.NewXavierUniform(cf)
		cf.FanIn, cf.FanOut = 3*cf.FanIn+1, 2
	case "xn":
		cf := &initializers.XavierNormalConfig{FanIn: r.FI, FanOut: r.FO}
		i, err = initializers.NewXavierNormal(cf)
		cf.FanIn, cf.FanOut = 3*cf.FanIn+1, 2
	case "RandU", "RandN":
		return func(shape []int) (tensor.Tensor, error) {
			c := lib.Conf(r.Cf == 0)
			if r.Cf == 2 {
				c = nil
			}
			var t tensor.Tensor
			var err error
			if r.K == "RandU" {
				t, err = tensor.RandU(shape, float64(r.A), float64(r.B), c)
			} else {
				t, err = tensor.RandN(shape, float64(r.A), float64(r.B), c)
			}
			if err != nil || t == nil {
				return nil, fmt.Errorf("%s failed on valid input: %v", r, err)
			}
			return t, nil
		}, nil
	}
	if err != nil || i == nil {
		return nil, fmt.Errorf("constructor of %s failed on a valid config: %v", r, err)
	}
	return func(shape []int) (tensor.Tensor, error) {
		t, err := i.Init(shape)
		if err != nil || t == nil {
			return nil, fmt.Errorf("Init of %s failed for shape %v: %v", r, shape, err)
		}
		return t, nil
	}, nil
}

func (r RInit) tracked() bool {
	return r.K != "RandU" && r.K != "RandN" || r.Cf == 0
}

// draw draws one tensor and judges shape and support.
func (r RInit) draw(f func([]int) (tensor.Tensor, error), shape []int) (tensor.Tensor, []float64, error) {
	arg := append([]int{}, shape...)
	t, err := f(arg)
	if err != nil {
		return nil, nil, err
	}
	for i := range arg {
		if arg[i] != shape[i] {
			return nil, nil, fmt.Errorf("support: %s changed the shape argument from %v to %v", r, shape, arg)
		}
		arg[i] = 77
	}
	if err := lib.CheckShape("shape: "+r.String(), t, shape); err != nil {
		return nil, nil, err
	}
	_, v, err := lib.Read(t)
	if err != nil {
		return nil, nil, err
	}
	a, b := r.params()
	lo, hi := a, b
	if r.K == "heu" || r.K == "xu" {
		lo, hi = a*(1+4*eps), b*(1+4*eps)
	}
	for i, x := range v {
		switch {
		case r.K == "full":
			if !lib.Same(x, a) {
				return nil, nil, fmt.Errorf("support: element %v of %s is %v", lib.Index(i, shape), r, x)
			}
		case r.uniform():
			if !(lo <= x && x < hi) {
				return nil, nil, fmt.Errorf("support: element %v of %s is %v, outside [%v, %v)", lib.Index(i, shape), r, x, a, b)
			}
		default:
			if math.IsNaN(x) || math.Abs((x-a)/b) > 12+4*eps*math.Abs(a)/b {
				return nil, nil, fmt.Errorf("support: element %v of %s is %v", lib.Index(i, shape), r, x)
			}
		}
	}
	return t, v, nil
}

// norm maps draws to the standard distribution; fine tells whether the range
// is resolved finely enough for statistics.
func (r RInit) norm(v []float64) (z []float64, fine bool) {
	a, b := r.params()
	z = make([]float64, len(v))
	if r.uniform() {
		w := b/2 - a/2
		fine = w > 1e-10*math.Max(math.Abs(a), math.Abs(b)) && w > 1e-290
		for i := range v {
			z[i] = (v[i]/2 - a/2) / w
		}
		return z, fine
	}
	fine = b > 1e-9*math.Abs(a) && b > 1e-290
	for i := range v {
		z[i] = (v[i] - a) / b
	}
	return z, fine
}

func corr(x, y []float64) float64 {
	n := float64(len(x))
	mx, my := sum(x)/n, sum(y)/n
	var xx, yy, xy float64
	for i := range x {
		dx, dy := x[i]-mx, y[i]-my
		xx += dx * dx
		yy += dy * dy
		xy += dx * dy
	}
	if xx == 0 || yy == 0 {
		return math.Inf(1)
	}
	return xy / math.Sqrt(xx*yy)
}

// stats judges a pooled sample of n >= 1000 standardised draws. Every
// threshold is far beyond 1e-11 for a correct sampler.
func (r RInit) stats(z []float64) error {
	n := float64(len(z))
	m := sum(z) / n
	q := 0.0
	for _, x := range z {
		q += x * x
	}
	s := append([]float64{}, z...)
	sort.Float64s(s)
	var cdf func(float64) float64
	if r.uniform() {
		cdf = func(x float64) float64 { return x }
		if e := math.Abs(m-0.5) * math.Sqrt(12*n); e > 8 {
			return fmt.Errorf("mean: %d draws of %s have the mean %v of the range width, %.1f standard errors off 0.5", len(z), r, m, e)
		}
		v := 0.0
		for _, x := range z {
			v += (x - 0.5) * (x - 0.5)
		}
		if e := math.Abs(v/n-1./12) * math.Sqrt(180*n); e > 8 {
			return fmt.Errorf("scale: %d draws of %s have the variance %v of the range width squared, %.1f standard errors off 1/12", len(z), r, v/n, e)
		}
		if s[0] > 35/n || s[len(s)-1] < 1-35/n {
			return fmt.Errorf("range: %d draws of %s cover only [%v, %v] of the range", len(z), r, s[0], s[len(s)-1])
		}
	} else {
		cdf = func(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }
		if e := math.Abs(m) * math.Sqrt(n); e > 8 {
			return fmt.Errorf("mean: %d draws of %s have a mean of %v deviations, %.1f standard errors off 0", len(z), r, m, e)
		}
		if e := math.Abs(q/n-1) * math.Sqrt(n/2); e > 8.5 {
			return fmt.Errorf("scale: %d draws of %s have the variance %v of the configured one, %.1f standard errors off", len(z), r, q/n, e)
		}
		// P(no draw beyond t) = exp(-35)
		lo, hi := 0.0, 9.0
		for i := 0; i < 60; i++ {
			t := (lo + hi) / 2
			if n*math.Erfc(t/math.Sqrt2)/2 > 35 {
				lo = t
			} else {
				hi = t
			}
		}
		if s[0] > -lo || s[len(s)-1] < lo {
			return fmt.Errorf("range: %d draws of %s lie within [%v, %v] deviations", len(z), r, s[0], s[len(s)-1])
		}
		// P(some draw beyond t) < 1e-13
		t := 8.0
		for n*math.Erfc(t/math.Sqrt2) < 1e-13 && t > 0 {
			t -= 0.05
		}
		t += 0.05
		if s[0] < -t || s[len(s)-1] > t {
			return fmt.Errorf("range: %d draws of %s reach [%v, %v] deviations", len(z), r, s[0], s[len(s)-1])
		}
	}
	d := 0.0
	for i, x := range s {
		c := cdf(x)
		d = math.Max(d, math.Max(c-float64(i)/n, float64(i+1)/n-c))
	}
	if d*math.Sqrt(n) > 3.7 {
		return fmt.Errorf("distribution: %d draws of %s deviate from the configured distribution (Kolmogorov-Smirnov D*sqrt(n) = %.2f)", len(z), r, d*math.Sqrt(n))
	}
	var a shape
	a.add(r.uniform(), z)
	return a.judge(r)
}

// shape accumulates the coefficients of the sampled density along the
// Legendre polynomials of the cumulative probability (bounded, so their means
// have no heavy tails) and, for normal draws, along the Hermite polynomials.
type shape struct {
	n   int
	leg [9]float64
	her [7]float64
}

func (a *shape) add(uniform bool, z []float64) {
	a.n += len(z)
	for _, x := range z {
		u := x
		if !uniform {
			u = 0.5 * math.Erfc(-x/math.Sqrt2)
			h0, h1 := 1.0, x
			for k := 2; k < len(a.her); k++ {
				h0, h1 = h1, x*h1-float64(k-1)*h0
				a.her[k] += h1
			}
		}
		t := 2*u - 1
		p0, p1 := 1.0, t
		for k := 1; k < len(a.leg); k++ {
			a.leg[k] += p1
			p0, p1 = p1, (float64(2*k+1)*t*p1-float64(k)*p0)/float64(k+1)
		}
	}
}

func (a *shape) judge(r RInit) error {
	if a.n < 4000 {
		return nil
	}
	n := float64(a.n)
	for k := 1; k < len(a.leg); k++ {
		if e := a.leg[k] * math.Sqrt(float64(2*k+1)/n); !(math.Abs(e) < 9) {
			return fmt.Errorf("distribution: %d draws of %s deviate from the configured distribution (component %d of the cumulative probabilities is %.1f standard errors off)", a.n, r, k, e)
		}
	}
	if r.uniform() || a.n < 400000 {
		return nil
	}
	f := 2.0
	for k := 3; k <= 6; k++ {
		f *= float64(k)
		limit := 10.0
		if k > 4 {
			limit = 20 // their means have wider tails
		}
		if e := a.her[k] / math.Sqrt(f*n); !(math.Abs(e) < limit) {
			return fmt.Errorf("distribution: %d draws of %s deviate from the configured distribution (Hermite component %d is %.1f standard errors off)", a.n, r, k, e)
		}
	}
	return nil
}

// characters judges the joint distribution of draws within short windows by
// the mean of exp(2 pi i sum(k[j]*u[i+off[j]])), whose real and imaginary
// parts have the mean 0 and the variance 1/2 for independent draws.
func (r RInit) characters(z []float64, lags []int) error {
	n := len(z)
	if n < 2000 {
		return nil
	}
	e := make([]complex128, n)
	for i, x := range z {
		if !r.uniform() {
			x = 0.5 * math.Erfc(-x/math.Sqrt2)
		}
		s, c := math.Sincos(2 * math.Pi * x)
		e[i] = complex(c, s)
	}
	judge := func(sum complex128, m int, what string) error {
		v := math.Max(math.Abs(real(sum)), math.Abs(imag(sum))) * math.Sqrt(2/float64(m))
		if !(v < 8.5) {
			return fmt.Errorf("independence: %s of %d draws of %s depend on each other (joint component %.1f standard errors off)", what, n, r, v)
		}
		return nil
	}
	conj := func(x complex128) complex128 { return complex(real(x), -imag(x)) }
	for _, lag := range lags {
		m := n - lag
		if lag <= 0 || m < 2000 {
			continue
		}
		var s [6]complex128
		for i := 0; i < m; i++ {
			a, b := e[i], e[i+lag]
			aa, bb, cb := a*a, b*b, conj(b)
			s[0] += a * b
			s[1] += a * cb
			s[2] += aa * b
			s[3] += aa * cb
			s[4] += a * bb
			s[5] += a * conj(bb)
		}
		for _, v := range s {
			if err := judge(v, m, fmt.Sprintf("pairs %d apart", lag)); err != nil {
				return err
			}
		}
		if m = n - 3*lag; m < 2000 {
			continue
		}
		var t [8]complex128
		for i := 0; i < m; i++ {
			a, b, c, d := e[i], e[i+lag], e[i+2*lag], e[i+3*lag]
			p, q := a*b, a*conj(b)
			cc := conj(c)
			t[0] += p * c
			t[1] += p * cc
			t[2] += q * c
			t[3] += q * cc
			t[4] += p * c * d
			t[5] += p * cc * d
			t[6] += q * c * conj(d)
			t[7] += q * cc * d
		}
		for k, v := range t {
			what := fmt.Sprintf("triples %d apart", lag)
			if k > 3 {
				what = fmt.Sprintf("quadruples %d apart", lag)
			}
			if err := judge(v, m, what); err != nil {
				return err
			}
		}
	}
	return nil
}

// dups counts equal values and judges the count for the sampler's resolution.
func (r RInit) dups(v []float64) error {
	s := append([]float64{}, v...)
	sort.Float64s(s)
	k := 0
	for i := 1; i < len(s); i++ {
		if s[i] == s[i-1] {
			k++
		}
	}
	n := float64(len(v))
	// expected number of equal pairs: normal draws have 2^32 values, uniform
	// draws at least 2^53 * width / max magnitude
	cells := math.Ldexp(1, 32)
	if r.uniform() {
		a, b := r.params()
		cells = math.Ldexp((b/2-a/2)/math.Max(math.Abs(a), math.Abs(b)), 52)
	} else if a, b := r.params(); a != 0 {
		cells = math.Min(cells, math.Ldexp(b/math.Abs(a), 50))
	}
	exp := n * n / 2 / cells
	if float64(k) > 8+1.5*exp+10*math.Sqrt(exp) {
		return fmt.Errorf("freshness: %d draws of %s contain %d repeated values (about %.2g expected)", len(v), r, k, exp)
	}
	return nil
}

func lagCorr(z []float64, lag int) (r, limit float64) {
	m := len(z) - lag
	if lag <= 0 || m < 500 {
		return 0, 1
	}
	return corr(z[:m], z[lag:]), 8 / math.Sqrt(float64(m))
}

// DistCase draws Calls tensors of one shape from one initializer.
type DistCase struct {
	R     RInit `json:"r"`
	Shape []int `json:"shape"`
	Calls int   `json:"calls"`
	New   bool  `json:"new,omitempty"` // a new initializer for every call
	Rej   int   `json:"rej,omitempty"` // every so many calls an invalid one
}

func checkDist(c DistCase, x *eng.Ctx) error {
	f, err := c.R.make()
	if err != nil {
		return err
	}
	var pool []float64
	seen := map[tensor.Tensor]bool{}
	for k := 0; k < c.Calls; k++ {
		if c.New && k > 0 {
			if f, err = c.R.make(); err != nil {
				return err
			}
		}
		if c.Rej > 0 && k%c.Rej == 0 {
			if err := c.R.rejected(f, k/c.Rej+len(c.Shape)); err != nil {
				return err
			}
		}
		t, v, err := c.R.draw(f, c.Shape)
		if err != nil {
			return err
		}
		if seen[t] {
			return fmt.Errorf("freshness: two calls of %s returned the same tensor", c.R)
		}
		seen[t] = true
		if k < 3 {
			if err := trackedStatus(t, c.R.tracked()); err != nil {
				return fmt.Errorf("tracking: result of %s of shape %v %v", c.R, c.Shape, err)
			}
		}
		pool = append(pool, v...)
	}
	x.Label("kind %s", c.R.K)
	x.Label("rank %d", len(c.Shape))
	if c.R.K == "full" {
		x.NonTrivial()
		return nil
	}
	z, fine := c.R.norm(pool)
	if !fine || len(z) < 1000 {
		x.Label("support only")
		return nil
	}
	x.NonTrivial()
	if err := c.R.dups(pool); err != nil {
		return err
	}
	if err := c.R.stats(z); err != nil {
		return err
	}
	n := len(pool) / c.Calls
	st := append(ref.Strides(c.Shape), 1, 2, 3, n, 2*n)
	abs := make([]float64, len(z))
	half := 0.0
	if c.R.uniform() {
		half = 0.5
	}
	for i := range z {
		abs[i] = math.Abs(z[i] - half)
	}
	for _, lag := range st {
		if r, l := lagCorr(z, lag); math.Abs(r) > l {
			return fmt.Errorf("independence: draws of %s of shape %v that are %d positions apart have the correlation %.4f over %d draws", c.R, c.Shape, lag, r, len(z))
		}
		if r, l := lagCorr(abs, lag); math.Abs(r) > l {
			return fmt.Errorf("independence: magnitudes of draws of %s of shape %v that are %d positions apart have the correlation %.4f over %d draws", c.R, c.Shape, lag, r, len(z))
		}
	}
	if err := c.R.characters(z, st); err != nil {
		return err
	}
	// mirrored positions within a tensor and between halves of the pool
	rev := make([]float64, len(z))
	for k := 0; k < c.Calls; k++ {
		for i := 0; i < n; i++ {
			rev[k*n+i] = z[k*n+n-1-i]
		}
	}
	if n > 1 {
		var p, q []float64
		for k := 0; k < c.Calls; k++ {
			p = append(p, z[k*n:k*n+n/2]...)
			q = append(q, rev[k*n:k*n+n/2]...)
		}
		if len(p) >= 500 {
			if r := corr(p, q); math.Abs(r) > 8/math.Sqrt(float64(len(p))) {
				return fmt.Errorf("independence: draws of %s at mirrored positions of shape %v have the correlation %.4f", c.R, c.Shape, r)
			}
		}
	}
	h := len(z) / 2
	if r := corr(z[:h], z[h:2*h]); math.Abs(r) > 8/math.Sqrt(float64(h)) {
		return fmt.Errorf("independence: the first and the second half of the draws of %s have the correlation %.4f", c.R, r)
	}
	// every position by itself, every pair of positions
	if c.Calls >= 400 && n <= 24 {
		cols := make([][]float64, n)
		for i := range cols {
			for k := 0; k < c.Calls; k++ {
				cols[i] = append(cols[i], z[k*n+i])
			}
			m, sd := sum(cols[i])/float64(c.Calls), 1.0
			if c.R.uniform() {
				m -= 0.5
				sd = math.Sqrt(1. / 12)
			}
			if math.Abs(m)/sd*math.Sqrt(float64(c.Calls)) > 8 {
				return fmt.Errorf("position: element %v of %d tensors of shape %v from %s has a mean of %v", lib.Index(i, c.Shape), c.Calls, c.Shape, c.R, m)
			}
			v := 0.0
			for _, q := range cols[i] {
				if c.R.uniform() {
					q -= 0.5
				}
				v += q * q / sd / sd
			}
			v = v/float64(c.Calls) - 1
			if math.Abs(v)*math.Sqrt(float64(c.Calls)/2) > 12 {
				return fmt.Errorf("position: element %v of %d tensors of shape %v from %s has %v times the configured variance", lib.Index(i, c.Shape), c.Calls, c.Shape, c.R, 1+v)
			}
		}
		for i := range cols {
			for j := 0; j < i; j++ {
				if r := corr(cols[i], cols[j]); math.Abs(math.Atanh(r))*math.Sqrt(float64(c.Calls-3)) > 9 {
					return fmt.Errorf("independence: elements %v and %v of tensors of shape %v from %s have the correlation %.3f over %d calls", lib.Index(j, c.Shape), lib.Index(i, c.Shape), c.Shape, c.R, r, c.Calls)
				}
			}
		}
		x.Label("positions judged")
	}
	return nil
}

// trackedStatus back-propagates through t.
func trackedStatus(t tensor.Tensor, want bool) error {
	if t.Gradient() != nil {
		return fmt.Errorf("already has a gradient")
	}
	y := t.Scale(3)
	if err := tensor.BackPropagate(y); err != nil {
		return fmt.Errorf("cannot be back-propagated to: %v", err)
	}
	g := t.Gradient()
	if (g != nil) != want {
		return fmt.Errorf("has tracked status %v, want %v", g != nil, want)
	}
	if g == nil {
		return nil
	}
	n := ref.Prod(t.Shape())
	v := make([]float64, n)
	for i := range v {
		v[i] = 3
	}
	return lib.CheckBits("gradient", g, append([]int{}, t.Shape()...), v)
}

func genRInit(s *eng.Src, wild bool) RInit {
	r := RInit{K: eng.Pick(s, []string{"uniform", "normal", "heu", "hen", "xu", "xn", "RandU", "RandN"})}
	fan := func() int {
		switch s.Weighted(4, 3, 1) {
		case 0:
			return s.Range(1, 16)
		case 1:
			return s.Range(1, 2000)
		}
		return 1 << s.Range(0, 62)
	}
	r.FI, r.FO = fan(), fan()
	if (r.K == "uniform" || r.K == "normal") && s.Chance(1, 4) {
		r.Nil = true
	}
	if r.K == "RandU" || r.K == "RandN" {
		r.Cf = s.Intn(3)
	}
	v := (*eng.Src).Nice
	if wild && s.Bool() {
		v = (*eng.Src).Wild
	}
	a := v(s)
	if r.uniform() {
		b := v(s)
		switch s.Weighted(4, 2, 1) {
		case 1:
			b = a + math.Ldexp(1+s.Unit(), s.Range(0, 80)-40)
		case 2:
			b = math.Nextafter(a, math.Inf(1))
			for k := s.Intn(4); k > 0; k-- {
				b = math.Nextafter(b, math.Inf(1))
			}
		}
		if a > b {
			a, b = b, a
		}
		if !(a < b) || math.IsInf(b, 0) {
			a, b = -0.5, 1.25
		}
		r.A, r.B = lib.F1(a), lib.F1(b)
		return r
	}
	if s.Bool() {
		a = 0
	}
	b := math.Abs(v(s))
	if b == 0 {
		b = 0.75
	}
	if !(math.Abs(a)+20*b < 1e308) {
		a, b = 0, 1
	}
	r.A, r.B = lib.F1(a), lib.F1(b)
	return r
}

func genDist(total int, wild bool) func(s *eng.Src) DistCase {
	return func(s *eng.Src) DistCase {
		c := DistCase{R: genRInit(s, wild), New: s.Chance(1, 3)}
		m := eng.Pick(s, []int{1, 4, 12, 24, 100, 600, total})
		c.Shape = s.Shape(0, 6, m)
		n := ref.Prod(c.Shape)
		if n < 24 && s.Chance(1, 4) && len(c.Shape) > 0 {
			i := s.Intn(len(c.Shape))
			c.Shape[i] = s.Range(1, total/n)
			n = ref.Prod(c.Shape)
		}
		c.Calls = max(1, min(total/n, 1500))
		if !wild && s.Chance(1, 5) {
			c.Rej = s.Range(1, 4)
		}
		return c
	}
}

// enumDist lists all initializers for shapes of every rank, and standard
// configurations.
func enumDist(th bool, yield func(DistCase) bool) {
	shapes := [][]int{{}, {1}, {7}, {1, 1}, {3, 5}, {2, 3, 4}, {2, 1, 3, 2}, {1, 2, 2, 3, 2}, {2, 2, 1, 2, 2, 3}, {2, 2, 2, 2, 2, 2, 2}, {40, 50}, {2000}, {100, 1, 25}}
	kinds := []RInit{
		{K: "full", A: 0.1}, {K: "full", Nil: true}, {K: "full", A: lib.F1(math.Copysign(0, -1))}, {K: "full", A: -7}, {K: "full", A: 5e-324}, {K: "full", A: math.MaxFloat64},
		{K: "uniform", Nil: true}, {K: "uniform", A: -3, B: 1}, {K: "uniform", A: 2, B: 2.5}, {K: "uniform", A: -math.MaxFloat64, B: math.MaxFloat64}, {K: "uniform", A: 1, B: 1 + 0x1p-52}, {K: "uniform", A: 0, B: 5e-324}, {K: "uniform", A: -5e-324, B: 5e-324},
		{K: "normal", Nil: true}, {K: "normal", A: -4, B: 0.25}, {K: "normal", A: 0, B: 30}, {K: "normal", A: 1e12, B: 1e-3}, {K: "normal", A: 0, B: 1e-300},
		{K: "RandU", A: 0, B: 1}, {K: "RandU", A: -1, B: 0, Cf: 1}, {K: "RandU", A: 5, B: 6, Cf: 2},
		{K: "RandN", A: 0, B: 1}, {K: "RandN", A: 2, B: 3, Cf: 1}, {K: "RandN", A: -2, B: 0.5, Cf: 2},
	}
	for _, f := range [][2]int{{1, 1}, {1, 5}, {5, 1}, {2, 3}, {16, 4}, {300, 700}, {1 << 31, 1}, {1 << 62, 1 << 62}, {math.MaxInt64, 1}} {
		for _, k := range []string{"heu", "hen", "xu", "xn"} {
			kinds = append(kinds, RInit{K: k, FI: f[0], FO: f[1]})
		}
	}
	for _, k := range kinds {
		for i, sh := range shapes {
			n := ref.Prod(sh)
			t := 4000
			if th {
				t = 60000
			}
			c := DistCase{R: k, Shape: sh, Calls: max(2, min(600, t/n)), New: i%2 == 1}
			if k.K == "full" {
				c.Calls = 3
			}
			if !yield(c) {
				return
			}
		}
	}
}

// OrderCase interleaves calls of several initializers.
type OrderCase struct {
	R     []RInit  `json:"r"`
	Calls [][2]int `json:"calls"` // initializer, number of elements
	Rank  int      `json:"rank"`
	New   bool     `json:"new,omitempty"`
	Rej   int      `json:"rej,omitempty"` // every so many calls an invalid one
}

// rejected makes an invalid call related to r (f draws from it).
func (r RInit) rejected(f func(shape []int) (tensor.Tensor, error), k int) error {
	a, b := float64(r.A), float64(r.B)
	var err error
	switch k % 13 {
	case 0:
		_, err = tensor.RandU([]int{4}, b, a, nil)
		if a > b {
			_, err = tensor.RandU([]int{4}, a, b, nil)
		}
	case 1:
		_, err = tensor.RandN([]int{4}, a, -math.Abs(b)*20, nil)
	case 2:
		_, err = tensor.RandN([]int{4}, a+50, 0, nil)
	case 3:
		_, err = tensor.RandU([]int{4, 0}, -100, 100, nil)
	case 4:
		_, err = tensor.RandN([]int{-4, 2}, 30, 100, nil)
	case 5:
		_, err = f([]int{0, 3})
	case 6:
		_, err = f([]int{3, 2, -1})
	case 7:
		_, err = initializers.NewUniform(&initializers.UniformConfig{Lower: 7, Upper: 7})
	case 8:
		_, err = initializers.NewNormal(&initializers.NormalConfig{Mean: 9, StdDev: -30})
	case 9:
		_, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: -1})
	case 10:
		_, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 4, FanOut: 0})
	case 11:
		_, err = initializers.NewHeNormal(nil)
	default:
		_, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: 0, FanOut: 2})
	}
	if err == nil {
		return fmt.Errorf("invalid call (number %d) of %s accepted", k%13, r)
	}
	return nil
}

func genOrder(s *eng.Src) OrderCase {
	var c OrderCase
	k := s.Range(1, 5)
	for i := 0; i < k; i++ {
		if i > 0 && s.Chance(1, 3) {
			c.R = append(c.R, c.R[s.Intn(i)])
			continue
		}
		r := genRInit(s, false)
		if _, fine := r.norm(nil); !fine {
			r = RInit{K: "uniform", Nil: true}
		}
		c.R = append(c.R, r)
	}
	c.New = s.Chance(1, 3)
	if s.Chance(1, 4) {
		c.Rej = s.Range(1, 3)
	}
	c.Rank = s.Range(1, 3)
	sub := eng.NewSrc(s.Bits())
	size := eng.Pick(s, []int{1, 3, 10, 60, 400})
	left := 1500 * k
	for left > 0 {
		n := sub.Range(1, size)
		c.Calls = append(c.Calls, [2]int{sub.Intn(k), n})
		left -= n
	}
	return c
}

func checkOrder(c OrderCase, x *eng.Ctx) error {
	fs := make([]func([]int) (tensor.Tensor, error), len(c.R))
	var err error
	for i, r := range c.R {
		if fs[i], err = r.make(); err != nil {
			return err
		}
	}
	raw := make([][]float64, len(c.R))
	var allU, allN []float64 // in call order, standardised
	for k, q := range c.Calls {
		i := q[0]
		if c.New && k%3 == 0 {
			if fs[i], err = c.R[i].make(); err != nil {
				return err
			}
		}
		if c.Rej > 0 && k%c.Rej == 0 {
			if err := c.R[i].rejected(fs[i], k/c.Rej); err != nil {
				return err
			}
		}
		sh := make([]int, c.Rank)
		for j := range sh {
			sh[j] = 1
		}
		sh[k%c.Rank] = q[1]
		_, v, err := c.R[i].draw(fs[i], sh)
		if err != nil {
			return err
		}
		raw[i] = append(raw[i], v...)
		z, _ := c.R[i].norm(v)
		if c.R[i].uniform() {
			allU = append(allU, z...)
		} else {
			allN = append(allN, z...)
		}
	}
	zs := make([][]float64, len(c.R))
	for i, r := range c.R {
		zs[i], _ = r.norm(raw[i])
		if err := r.dups(raw[i]); err != nil {
			return err
		}
		if len(zs[i]) >= 1000 {
			if err := r.stats(zs[i]); err != nil {
				return err
			}
			x.NonTrivial()
		}
		for j := 0; j < i; j++ {
			m := min(len(zs[i]), len(zs[j]))
			if m < 500 {
				continue
			}
			if r := corr(zs[i][:m], zs[j][:m]); math.Abs(r) > 8/math.Sqrt(float64(m)) {
				return fmt.Errorf("independence: the draws of %s and of %s have the correlation %.4f over %d draws", c.R[j], c.R[i], r, m)
			}
		}
	}
	for _, z := range [][]float64{allU, allN} {
		for _, lag := range []int{1, 2, 3, 5} {
			if r, l := lagCorr(z, lag); math.Abs(r) > l {
				return fmt.Errorf("independence: standardised draws %d apart in an interleaved sequence of calls have the correlation %.4f over %d draws", lag, r, len(z))
			}
		}
	}
	x.Label("initializers %d", len(c.R))
	return nil
}

// ConstCase draws from Full.
type ConstCase struct {
	V     lib.F1 `json:"v"`
	Nil   bool   `json:"nil,omitempty"`
	Shape []int  `json:"shape"`
}

func checkConst(c ConstCase, x *eng.Ctx) error {
	r := RInit{K: "full", A: c.V, Nil: c.Nil}
	return checkDist(DistCase{R: r, Shape: c.Shape, Calls: 2}, x)
}

func genBig(s *eng.Src) DistCase {
	c := DistCase{R: genRInit(s, false), Calls: 1}
	if _, fine := c.R.norm(nil); !fine {
		c.R.A, c.R.B = -1, 2
	}
	if s.Bool() {
		c.R.FI, c.R.FO = s.Range(1, 8), s.Range(1, 8)
	}
	n := s.Range(500000, 1000000)
	if s.Chance(1, 6) { // one tensor of more than a million elements
		n = s.Range(1<<20+1<<16, 2200000)
		d := s.Range(1, 100)
		c.Shape = []int{d, n / d}
		if s.Bool() {
			c.Shape = []int{n}
		}
		return c
	}
	switch s.Intn(5) {
	case 0:
		c.Shape = []int{n}
	case 1:
		d := s.Range(2, 1000)
		c.Shape = []int{d, n / d}
	case 2:
		d := s.Range(2, 1000)
		c.Shape = []int{n / d, d}
	case 3:
		c.Shape = []int{s.Range(2, 12), s.Range(2, 12), s.Range(2, 12), 300}
		c.Calls = max(1, n/ref.Prod(c.Shape))
	default:
		c.Shape = []int{s.Range(20, 60), s.Range(20, 60)}
		c.Calls = n / ref.Prod(c.Shape)
	}
	return c
}

// StreamCase draws far more than is kept in memory.
type StreamCase struct {
	R     RInit `json:"r"`
	Shape []int `json:"shape"`
	Draws int   `json:"draws"`
}

func genStream(draws int) func(s *eng.Src) StreamCase {
	return func(s *eng.Src) StreamCase {
		c := StreamCase{R: genRInit(s, false), Draws: draws}
		if _, fine := c.R.norm(nil); !fine {
			c.R.A, c.R.B = -1, 2
		}
		c.R.FI, c.R.FO = s.Range(1, 8), s.Range(1, 8)
		c.Shape = eng.Pick(s, [][]int{{1000}, {64, 50}, {3, 333}, {10, 10, 10, 10}, {20000}})
		return c
	}
}

func checkStream(c StreamCase, x *eng.Ctx) error {
	const bins = 1 << 14
	f, err := c.R.make()
	if err != nil {
		return err
	}
	var a shape
	count := make([]int, bins)
	lo, hi := math.Inf(1), math.Inf(-1)
	var prev []float64
	var first, last float64 // sums over the first and the last elements
	calls := 0
	cov := 0.0
	for a.n < c.Draws {
		_, v, err := c.R.draw(f, c.Shape)
		if err != nil {
			return err
		}
		z, _ := c.R.norm(v)
		a.add(c.R.uniform(), z)
		for i, q := range z {
			u := q
			if !c.R.uniform() {
				u = 0.5 * math.Erfc(-q/math.Sqrt2)
			}
			count[min(bins-1, int(u*bins))]++
			lo, hi = math.Min(lo, q), math.Max(hi, q)
			if prev != nil {
				cov += (2*u - 1) * prev[i]
			}
			z[i] = 2*u - 1
		}
		first += z[0]
		last += z[len(z)-1]
		prev = z
		calls++
	}
	x.NonTrivial()
	x.Label("kind %s", c.R.K)
	if err := a.judge(c.R); err != nil {
		return err
	}
	n := float64(a.n)
	cum, d, chi := 0, 0.0, 0.0
	for b, k := range count {
		cum += k
		d = math.Max(d, math.Abs(float64(cum)/n-float64(b+1)/bins))
		e := float64(k) - n/bins
		chi += e * e * bins / n
	}
	if d*math.Sqrt(n) > 3.7 {
		return fmt.Errorf("distribution: %d draws of %s deviate from the configured distribution (Kolmogorov-Smirnov D*sqrt(n) = %.2f)", a.n, c.R, d*math.Sqrt(n))
	}
	if e := (chi - (bins - 1)) / math.Sqrt(2*(bins-1)); math.Abs(e) > 9 {
		return fmt.Errorf("distribution: %d draws of %s deviate from the configured distribution (chi-square over %d classes of equal probability %.1f deviations off)", a.n, c.R, bins, e)
	}
	// the rarest classes by themselves
	for _, b := range []int{0, bins - 1} {
		if e := (float64(count[b]) - n/bins) / math.Sqrt(n/bins); math.Abs(e) > 10 {
			return fmt.Errorf("distribution: %d of %d draws of %s lie in an outermost class that should hold %.0f", count[b], a.n, c.R, n/bins)
		}
	}
	if e := cov / float64(a.n-len(prev)) * 3 * math.Sqrt(n-float64(len(prev))); math.Abs(e) > 8.5 {
		return fmt.Errorf("independence: elements of successive tensors of %s depend on each other (%.1f standard errors)", c.R, e)
	}
	for i, s := range []float64{first, last} {
		if e := s * math.Sqrt(3/float64(calls)); math.Abs(e) > 8.5 && calls > 100 {
			return fmt.Errorf("position: the %s elements of %d tensors of shape %v from %s are %.1f standard errors off the mean", []string{"first", "last"}[i], calls, c.Shape, c.R, e)
		}
	}
	if c.R.uniform() {
		if lo > 35/n || hi < 1-35/n {
			return fmt.Errorf("range: %d draws of %s cover only [%v, %v] of the range", a.n, c.R, lo, hi)
		}
	} else if t := 4.3; n >= 6e6 && (lo > -t || hi < t) { // P < exp(-50)
		return fmt.Errorf("range: %d draws of %s lie within [%v, %v] deviations", a.n, c.R, lo, hi)
	}
	return nil
}

func C18() *eng.Prop {
	return &eng.Prop{
		ID:   "C18",
		Rule: "a case is non-trivial when at least 1000 draws of one configuration were pooled and shape, support, tracking, freshness, moments, distribution and independence of positions judged (for Full: when every element was compared bit by bit)",
		Parts: []eng.AnyPart{
			eng.Part[DistCase]{Name: "every kind and rank", Enum: enumDist, Check: checkDist},
			eng.Part[DistCase]{Name: "distribution", Quick: 2500, Thorough: 50000, Gen: genDist(8000, false), Check: checkDist},
			eng.Part[DistCase]{Name: "any parameters", Quick: 2500, Thorough: 50000, Gen: genDist(3000, true), Check: checkDist},
			eng.Part[OrderCase]{Name: "interleaved calls", Quick: 1500, Thorough: 30000, Gen: genOrder, Check: checkOrder},
			eng.Part[ConstCase]{Name: "constants", Quick: 4000, Thorough: 100000, Gen: func(s *eng.Src) ConstCase {
				return ConstCase{V: lib.F1(s.Wild()), Nil: s.Chance(1, 6), Shape: s.Shape(0, 6, 60)}
			}, Check: checkConst},
			eng.Part[DistCase]{Name: "large samples", Quick: 48, Thorough: 800, Gen: genBig, Check: checkDist},
			eng.Part[StreamCase]{Name: "streams", Quick: 16, Gen: genStream(6000000), Check: checkStream},
			eng.Part[StreamCase]{Name: "long streams", Quick: 0, Thorough: 64, Gen: genStream(60000000), Check: checkStream},
		},
		Assumptions: []string{
			"statistical statements are judged at thresholds a correct sampler exceeds with a probability below 1e-11 per test; a deviation in distribution smaller than about 0.4% (at 10^6 draws) is not seen",
			"statistics are judged when the range is resolved by at least about 10^6 representable values; otherwise shape, support and tracking only",
			"bounds of the He and Xavier ranges are judged up to 4 units of rounding in the square root",
		},
	}
}
