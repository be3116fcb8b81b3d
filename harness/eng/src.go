// Package eng is a small property-based testing engine: every random choice a
// generator makes is drawn from a Src, which records the sequence of choices.
// A failing case is shrunk by simplifying that sequence (integrated shrinking)
// and re-running the generator on it; the resulting case is then stored as
// plain JSON data, so a replay does not depend on the generator.
package eng

import (
	"math"
	"slices"
	"sort"
)

// Src is a stream of choices: pseudo-random (and recorded) or replayed.
type Src struct {
	state  uint64
	replay []uint64
	isRep  bool
	pos    int
	Rec    []uint64
	// Big makes Shape prefer large tensors.
	Big bool
	// Floor, with Big, is the least number of elements of a large tensor.
	Floor int
}

func NewSrc(seed uint64) *Src { return &Src{state: seed} }

func ReplaySrc(choices []uint64) *Src { return &Src{replay: choices, isRep: true} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix derives a new seed from a seed and a stream of integers.
func Mix(seed uint64, xs ...uint64) uint64 {
	for _, x := range xs {
		seed = mix(seed ^ mix(x))
	}
	return seed
}

func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// next draws a choice in [0,n) (n == 0 means the full 64-bit range).
func (s *Src) next(n uint64) uint64 {
	var v uint64
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		if n != 0 && v >= n {
			v = n - 1
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		v = mix(s.state)
		if n != 0 {
			v %= n
		}
	}
	s.pos++
	s.Rec = append(s.Rec, v)
	return v
}

// Intn is uniform in [0,n) and shrinks to 0.
func (s *Src) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.next(uint64(n)))
}

// Range is uniform in [lo,hi] and shrinks to lo.
func (s *Src) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Bool shrinks to false.
func (s *Src) Bool() bool { return s.next(2) == 1 }

// Chance is true with probability num/den and shrinks to false.
func (s *Src) Chance(num, den int) bool { return s.Intn(den) >= den-num }

// Weighted returns an index with the given weights; shrinks to 0.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	r := s.Intn(t)
	for i, x := range w {
		if r < x {
			return i
		}
		r -= x
	}
	return len(w) - 1
}

func (s *Src) Bits() uint64 { return s.next(0) }

// Unit is uniform in [0,1) and shrinks to 0.
func (s *Src) Unit() float64 { return float64(s.next(1<<53)) * 0x1p-53 }

func Pick[T any](s *Src, xs []T) T { return xs[s.Intn(len(xs))] }

func (s *Src) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Intn(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------- values ----------

// Nice draws a moderate finite number: small integers, halves, random mantissas.
func (s *Src) Nice() float64 {
	switch s.Weighted(2, 2, 6) {
	case 0:
		k := s.Intn(9)
		return float64((k+1)/2) * []float64{1, -1}[k%2]
	case 1:
		return float64(s.Range(0, 32))/8 - 2
	default:
		if s.Chance(1, 25) {
			if f := s.dictFloat(); math.Abs(f) > 1e-3 && math.Abs(f) < 8 {
				return f
			}
		}
		return s.Unit()*6 - 3
	}
}

// Wild draws any finite number: zeros of both signs, ties, very small and very
// large magnitudes, random mantissas over the whole exponent range.
func (s *Src) Wild() float64 {
	switch s.Weighted(4, 2, 2, 1, 1) {
	case 0:
		return s.Nice()
	case 4:
		return s.dictFloat()
	case 1:
		return Pick(s, []float64{0, math.Copysign(0, -1), 1, -1, 2, 0.5, 1e-12, 1 - 1e-12, 1e-9, -1e-9, 1e6, -1e6, 1e16, 1 + 0x1p-52, 1 - 0x1p-53, 1e-150, -1e-150, 1e150, 1e-200, 3e-200, 0x1p-1074, -0x1p-1074, 3e-320, -4e-309, 0x1p-1022, math.Pi, -math.Pi / 2, 100, -100, 700, -700})
	case 2:
		f := math.Ldexp(1+s.Unit(), s.Range(0, 120)-60)
		if s.Bool() {
			f = -f
		}
		return f
	default:
		f := math.Ldexp(1+s.Unit(), s.Range(0, 2094)-1071)
		if s.Bool() {
			f = -f
		}
		return f
	}
}

const drawLimit = 48

// Floats draws n values with f. Beyond a limit the values come from one drawn
// sub-seed, so that big tensors stay cheap to generate and to shrink. Now and
// then the values follow a pattern of few distinct numbers.
func (s *Src) Floats(n int, f func(*Src) float64) []float64 {
	out := make([]float64, n)
	if n > 1 && s.Chance(1, 5) {
		s.pattern(out, f)
		return out
	}
	s.each(out, f)
	return out
}

func (s *Src) each(out []float64, f func(*Src) float64) {
	src := s
	if len(out) > drawLimit {
		src = NewSrc(mix(s.Bits()))
	}
	for i := range out {
		out[i] = f(src)
		if src != s {
			src.Rec = src.Rec[:0]
		}
	}
}

// pattern fills out with few distinct numbers: one constant, one odd element,
// a small palette, a repeated period, blocks, a mirrored or a sorted row.
func (s *Src) pattern(out []float64, f func(*Src) float64) {
	n := len(out)
	switch s.Weighted(2, 3, 4, 3, 2, 2, 2) {
	case 0:
		v := f(s)
		for i := range out {
			out[i] = v
		}
	case 1:
		v := f(s)
		for i := range out {
			out[i] = v
		}
		for k := s.Range(1, 2); k > 0; k-- {
			out[s.Intn(n)] = f(s)
		}
	case 2:
		pal := make([]float64, s.Range(2, 4))
		for i := range pal {
			pal[i] = f(s)
		}
		s.each(out, func(s *Src) float64 { return pal[s.Intn(len(pal))] })
	case 3:
		per := make([]float64, s.Range(2, min(n, 12)))
		for i := range per {
			per[i] = f(s)
		}
		for i := range out {
			out[i] = per[i%len(per)]
		}
	case 4:
		w := s.Range(1, n)
		for i := range out {
			if i%w == 0 {
				out[i] = f(s)
			} else {
				out[i] = out[i-1]
			}
		}
	case 5:
		s.each(out[:(n+1)/2], f)
		for i := range n / 2 {
			out[n-1-i] = out[i]
		}
	default:
		s.each(out, f)
		sort.Float64s(out)
		if s.Bool() {
			slices.Reverse(out)
		}
	}
}

func (s *Src) NiceN(n int) []float64 { return s.Floats(n, (*Src).Nice) }
func (s *Src) WildN(n int) []float64 { return s.Floats(n, (*Src).Wild) }

// Large turns a generator into one of large cases.
func Large[T any](gen func(*Src) T) func(*Src) T {
	return func(s *Src) T {
		s.Big = true
		return gen(s)
	}
}

// hugeFloor is above the largest size that any 16-bit count can express less
// a little, so that half of the sizes are past it.
const hugeFloor = 60000

// Huge turns a generator into one of cases with a huge tensor.
func Huge[T any](gen func(*Src) T) func(*Src) T {
	return func(s *Src) T {
		s.Big, s.Floor = true, hugeFloor
		return gen(s)
	}
}

// hugeSize is in [Floor,hi], or next to a constant of the code beyond that.
func (s *Src) hugeSize(hi int) int {
	var l []int
	for _, k := range DictInts {
		if k >= s.Floor && k <= 1<<20+1 {
			l = append(l, k)
		}
	}
	switch {
	case len(l) > 0 && s.Bool():
		return Pick(s, l) + s.Range(-1, 2)
	case s.Chance(1, 3):
		return min(hi, Pick(s, []int{65536, 131072})+s.Range(-1, 2))
	}
	return s.Range(s.Floor, hi)
}

// ---------- shapes ----------

func Prod(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

// Shape draws a shape of rank in [loRank,hiRank] with at most maxElems
// elements: mostly small dimensions, sometimes one long dimension.
func (s *Src) Shape(loRank, hiRank, maxElems int) []int {
	if s.Big && (s.Floor > 0 && s.Floor <= maxElems || s.Chance(3, 4)) {
		return s.BigShape(loRank, hiRank, maxElems)
	}
	if hiRank >= 5 && loRank < hiRank && s.Chance(1, 16) {
		return s.deepShape(hiRank+1, maxElems)
	}
	r := s.Range(loRank, hiRank)
	d := make([]int, r)
	n := 1
	long := -1
	if r > 0 && s.Chance(1, 6) {
		long = s.Intn(r)
	}
	for i := range d {
		hi := 5
		if i == long {
			hi = maxElems
			if hi > 8 && s.Bool() {
				hi = 8 + s.Intn(hi-7)
			}
		}
		if hi > maxElems/n {
			hi = maxElems / n
		}
		if hi < 1 {
			hi = 1
		}
		d[i] = s.Size(1, hi)
		n *= d[i]
	}
	return d
}

// Deep sometimes turns a base shape into one of many dimensions and raises the
// largest rank to go with it.
func (s *Src) Deep(base *[]int, maxElems int, maxRank *int) {
	if !s.Big && s.Chance(1, 24) {
		*base = s.deepShape(*maxRank+1, maxElems)
		*maxRank = len(*base) + 2
	}
}

// deepShape draws a shape of many dimensions, few of which are longer than one.
func (s *Src) deepShape(loRank, maxElems int) []int {
	hi := loRank + 6
	if s.Chance(1, 12) {
		hi = 70
	}
	d := make([]int, s.Range(loRank, hi))
	n := 1
	for i := range d {
		d[i] = 1
	}
	for k := s.Range(1, 4); k > 0; k-- {
		i := s.Intn(len(d))
		if d[i] == 1 && maxElems/n >= 2 {
			d[i] = s.Range(2, min(4, maxElems/n))
			n *= d[i]
		}
	}
	return d
}

// Sub draws a shape that broadcasts to d (right-aligned; some dims 1, leading
// dims possibly dropped).
func (s *Src) Sub(d []int) []int {
	k := 0
	if s.Chance(1, 2) {
		k = s.Intn(len(d) + 1)
	}
	o := append([]int{}, d[k:]...)
	for i := range o {
		if s.Chance(1, 3) {
			o[i] = 1
		}
	}
	return o
}

// BPair draws two shapes that broadcast against each other.
func (s *Src) BPair(loRank, hiRank, maxElems int) (a, b []int) {
	d := s.Shape(loRank, hiRank, maxElems)
	if hiRank > 2 && hiRank < 5 && loRank < hiRank && !s.Big && s.Chance(1, 16) {
		d = s.deepShape(hiRank+1, maxElems)
	}
	switch s.Weighted(2, 2, 2, 3) {
	case 0:
		return append([]int{}, d...), append([]int{}, d...)
	case 1:
		return append([]int{}, d...), s.Sub(d)
	case 2:
		return s.Sub(d), append([]int{}, d...)
	default:
		return s.Sub(d), s.Sub(d)
	}
}
