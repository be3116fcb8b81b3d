package props

import (
	"fmt"
	"math"

	"qv/eng"
	"qv/lib"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// AEv is one event in the life of some Accuracy metrics.
type AEv struct {
	K string `json:"k"`           // acc, bad, res, split
	W int    `json:"w,omitempty"` // which metric
	P lib.FL `json:"p,omitempty"`
	T lib.FL `json:"t,omitempty"`
	H [2]int `json:"h"` // how the two tensors come about
	// an invalid call: shapes or nil (nil slice with N set)
	SP []int `json:"sp,omitempty"`
	ST []int `json:"st,omitempty"`
	NP bool  `json:"np,omitempty"`
	NT bool  `json:"nt,omitempty"`
	FP bool  `json:"fp,omitempty"` // a Tensor the library has not created
	FT bool  `json:"ft,omitempty"`
	Sp []int `json:"cut,omitempty"` // split: sizes of the batches
}

type AccCase struct {
	N   int   `json:"n"` // number of metrics
	Lit bool  `json:"lit,omitempty"`
	Ev  []AEv `json:"ev"`
}

// mkFlat makes a rank-1 tensor with exactly the given values in several ways.
func mkFlat(v []float64, how int) (lib.Tensor, error) {
	n := len(v)
	switch how % 10 {
	case 1:
		return lib.Build([]int{n}, v, true)
	case 2: // a slice of something longer
		t, err := lib.Build([]int{n + 3}, append(append([]float64{7, 8}, v...), 9), how > 10)
		if err != nil {
			return nil, err
		}
		return t.Slice([]tensor.Range{{From: 2, To: n + 2}})
	case 3: // from a matrix
		t, err := lib.Build([]int{n, 1}, v, how > 10)
		if err != nil {
			return nil, err
		}
		return t.Squeeze(1)
	case 4: // from a transposed matrix
		t, err := lib.Build([]int{n, 1}, v, how > 10)
		if err == nil {
			t, err = t.Transpose()
		}
		if err != nil {
			return nil, err
		}
		return t.Flatten(0)
	case 5: // a spent tensor
		t, err := lib.Build([]int{n}, v, true)
		if err != nil {
			return nil, err
		}
		return t, tensor.BackPropagate(t.Scale(2))
	case 6: // pieces put together
		if n < 2 {
			break
		}
		k := 1 + how%(n-1)
		a, err := lib.Build([]int{k}, v[:k], how > 10)
		if err != nil {
			return nil, err
		}
		b, err := lib.Build([]int{n - k}, v[k:], false)
		if err != nil {
			return nil, err
		}
		return tensor.Concat([]tensor.Tensor{a, b}, 0)
	case 7: // a result of arithmetic
		t, err := lib.Build([]int{n}, v, how > 10)
		if err != nil {
			return nil, err
		}
		return t.Scale(1), nil
	case 8: // expanded, when all values are the same
		for _, x := range v {
			if !lib.Same(x, v[0]) {
				return lib.Build([]int{n}, v, false)
			}
		}
		if how > 10 {
			return tensor.Full([]int{n}, v[0], lib.Conf(true))
		}
		t, err := lib.Build([]int{1}, v[:1], false)
		if err != nil {
			return nil, err
		}
		return t.Broadcast([]int{n})
	}
	return lib.Build([]int{n}, v, false)
}

// label draws label values without near-ties that differ by less than 1e-240.
func genLabels(s *eng.Src, n int) (p, t []float64) {
	mode := s.Weighted(4, 2, 1, 1, 1)
	classes := s.Range(1, 6)
	draw := func(s *eng.Src) float64 {
		switch mode {
		case 0:
			return float64(s.Intn(classes))
		case 1:
			v := s.Wild()
			if math.Abs(v) < 1e-200 {
				v = math.Copysign(0, v)
			}
			return v
		case 2:
			return float64(s.Intn(2))
		case 3:
			return []float64{1, 1 + 0x1p-52, 1 - 0x1p-53, 1e308, -1e308, 0, math.Copysign(0, -1), 1e-200, 0.1 + 0.2, 0.3}[s.Intn(10)]
		}
		return float64(s.Intn(3)) - 1
	}
	p = s.Floats(n, draw)
	t = s.Floats(n, draw)
	specials(s, p, true)
	specials(s, t, true)
	agree := s.Intn(5)
	r := s.Floats(n, func(s *eng.Src) float64 { return float64(s.Intn(4)) })
	for i := range t {
		if int(r[i]) < agree {
			t[i] = p[i]
		}
	}
	return p, t
}

func genAcc(maxN, maxEv int) func(s *eng.Src) AccCase {
	return func(s *eng.Src) AccCase {
		c := AccCase{N: s.Range(1, 3), Lit: s.Chance(1, 6)}
		k := s.Range(1, maxEv)
		size := func() int {
			if s.Chance(1, 5) || s.Floor > 0 && s.Bool() {
				return s.Size(1, maxN)
			}
			return s.Range(1, min(maxN, 6))
		}
		for i := 0; i < k; i++ {
			e := AEv{W: s.Intn(c.N)}
			switch s.Weighted(5, 3, 1, 2) {
			case 0:
				e.K = "acc"
				e.P, e.T = genLabels(s, size())
				e.H = [2]int{s.Intn(20), s.Intn(20)}
				if s.Chance(1, 12) {
					e.H[1] = -1 // the same tensor twice
				}
			case 1:
				e.K = "bad"
				n := min(size(), 60)
				e.SP, e.ST = []int{n}, []int{n}
				// one thing, sometimes two things, wrong
				for q := s.Range(1, 2); q > 0; q-- {
					switch s.Intn(9) {
					case 0:
						e.NP = true
					case 1:
						e.NT = true
					case 2:
						e.ST = []int{n + s.Range(1, 3)}
					case 3:
						e.SP = []int{n + s.Range(1, 3)}
					case 4:
						e.SP, e.ST = []int{1}, []int{n + 1}
						if s.Bool() {
							e.SP, e.ST = e.ST, e.SP
						}
					case 5: // same shape, wrong rank
						sh := eng.Pick(s, [][]int{{}, {n, 1}, {1, n}, {n, n}, {1, 1, 1}, {2, 3}, {n, 1, 1, 1}, {1, 1, 1, 1, 1}})
						e.SP, e.ST = sh, sh
					case 6:
						e.SP = eng.Pick(s, [][]int{{}, {n, 1}, {1, n}, {n, n}})
					case 7:
						e.ST = eng.Pick(s, [][]int{{}, {n, 1}, {1, n}, {n, n}})
					case 8:
						if s.Bool() {
							e.FP = true
						} else {
							e.FT = true
						}
					}
				}
				e.H = [2]int{s.Intn(2), s.Intn(2)}
			case 2:
				e.K = "split"
				n := size()
				e.P, e.T = genLabels(s, n)
				for left := n; left > 0; {
					b := s.Range(1, left)
					e.Sp = append(e.Sp, b)
					left -= b
				}
				e.H = [2]int{s.Intn(20), s.Intn(20)}
			default:
				e.K = "res"
			}
			c.Ev = append(c.Ev, e)
		}
		return c
	}
}

type accModel struct {
	a              *metrics.Accuracy
	total, correct int
}

func (m *accModel) check() error {
	for i := 0; i < 2; i++ {
		got, err := m.a.Result()
		if err != nil {
			return fmt.Errorf("Result failed: %v", err)
		}
		want := 0.0
		if m.total > 0 {
			want = float64(m.correct) / float64(m.total)
		}
		if got != want {
			return fmt.Errorf("Result is %v after %d matches in %d positions, want %v", got, m.correct, m.total, want)
		}
	}
	return nil
}

func (m *accModel) add(p, t []float64, h [2]int) error {
	tp, err := mkFlat(p, h[0])
	if err != nil {
		return err
	}
	tt := tp
	if h[1] >= 0 {
		if tt, err = mkFlat(t, h[1]); err != nil {
			return err
		}
	} else {
		t = p
	}
	if err := m.a.Accumulate(tp, tt); err != nil {
		return fmt.Errorf("Accumulate failed on valid input of length %d: %v", len(p), err)
	}
	m.total += len(p)
	for i := range p {
		if p[i] == t[i] {
			m.correct++
		}
	}
	return nil
}

func checkAcc(c AccCase, x *eng.Ctx) error {
	ms := make([]*accModel, c.N)
	for i := range ms {
		ms[i] = &accModel{a: metrics.NewAccuracy()}
		if c.Lit {
			ms[i].a = &metrics.Accuracy{}
		}
		if ms[i].a == nil {
			return fmt.Errorf("NewAccuracy returned nil")
		}
		if err := ms[i].check(); err != nil {
			return fmt.Errorf("before any call: %v", err)
		}
	}
	accepted, rejected := 0, 0
	for k, e := range c.Ev {
		m := ms[e.W]
		switch e.K {
		case "acc":
			if err := m.add(e.P, e.T, e.H); err != nil {
				return fmt.Errorf("event %d: %v", k, err)
			}
			accepted++
		case "split":
			// a metric that receives the same data in another partition
			tw := [3]*accModel{}
			for i := range tw {
				tw[i] = &accModel{a: metrics.NewAccuracy()}
			}
			if err := m.add(e.P, e.T, e.H); err != nil {
				return fmt.Errorf("event %d: %v", k, err)
			}
			if err := tw[0].add(e.P, e.T, e.H); err != nil {
				return fmt.Errorf("event %d: %v", k, err)
			}
			for i := range e.P {
				if err := tw[1].add(e.P[i:i+1], e.T[i:i+1], [2]int{0, 0}); err != nil {
					return fmt.Errorf("event %d: %v", k, err)
				}
			}
			i := 0
			for _, b := range e.Sp {
				if err := tw[2].add(e.P[i:i+b], e.T[i:i+b], e.H); err != nil {
					return fmt.Errorf("event %d: %v", k, err)
				}
				i += b
			}
			var r [3]float64
			for i := range tw {
				if err := tw[i].check(); err != nil && e.H[1] >= 0 {
					return fmt.Errorf("event %d: %v", k, err)
				}
				r[i], _ = tw[i].a.Result()
			}
			if e.H[1] >= 0 && (r[0] != r[1] || r[0] != r[2]) {
				return fmt.Errorf("event %d: Result depends on the partition of the data: %v at once, %v one by one, %v in batches %v", k, r[0], r[1], r[2], e.Sp)
			}
			accepted++
			x.Label("split")
		case "bad":
			mk := func(sh []int, isNil, foreign bool, how int) (lib.Tensor, error) {
				if isNil {
					return nil, nil
				}
				t, err := lib.Build(sh, make([]float64, eng.Prod(sh)), how == 1)
				if foreign && err == nil {
					return Foreign{t}, nil
				}
				return t, err
			}
			tp, err := mk(e.SP, e.NP, e.FP, e.H[0])
			if err != nil {
				return err
			}
			tt, err := mk(e.ST, e.NT, e.FT, e.H[1])
			if err != nil {
				return err
			}
			valid := !e.NP && !e.NT && len(e.SP) == 1 && len(e.ST) == 1 && e.SP[0] == e.ST[0]
			err = m.a.Accumulate(tp, tt)
			switch {
			case err != nil:
				if valid && !e.FP && !e.FT {
					return fmt.Errorf("event %d: Accumulate failed on valid input: %v", k, err)
				}
				rejected++
			case !valid:
				return fmt.Errorf("event %d: Accumulate accepted invalid input (nil: %v %v, shapes: %v %v)", k, e.NP, e.NT, e.SP, e.ST)
			default:
				m.total += e.SP[0]
				m.correct += e.SP[0]
			}
		}
		for i := range ms {
			if err := ms[i].check(); err != nil {
				return fmt.Errorf("after event %d (%s), metric %d: %v", k, e.K, i, err)
			}
		}
	}
	if accepted > 0 {
		x.Label("accepted calls")
	}
	if rejected > 0 {
		x.Label("rejected calls")
	}
	if accepted > 0 && (rejected > 0 || accepted > 1) {
		x.NonTrivial()
	}
	return nil
}

// enumAcc lists all pairs of short label vectors in two calls with a rejected
// call between them.
func enumAcc(th bool, yield func(AccCase) bool) {
	m := 3
	if th {
		m = 4
	}
	for n := 1; n <= m; n++ {
		for b := 0; b < 1<<(2*n); b++ {
			p, t := make([]float64, n), make([]float64, n)
			for i := range p {
				p[i], t[i] = float64(b>>(2*i)&1), float64(b>>(2*i+1)&1)
			}
			for bad := 0; bad < 6; bad++ {
				e := AEv{K: "bad", SP: []int{n}, ST: []int{n}}
				switch bad {
				case 0:
					e.NP = true
				case 1:
					e.NT = true
				case 2:
					e.ST = []int{n + 1}
				case 3:
					e.SP, e.ST = []int{n, 1}, []int{n, 1}
				case 4:
					e.SP, e.ST = []int{1}, []int{n + 1}
				case 5:
					e.SP, e.ST = []int{}, []int{}
				}
				c := AccCase{N: 1 + b%2, Ev: []AEv{e, {K: "acc", P: p, T: t, H: [2]int{bad, b % 10}}, e,
					{K: "acc", W: b % 2, P: t, T: append([]float64{1}, p[1:]...)}, e, {K: "split", P: p, T: t, Sp: []int{n}}}}
				if !yield(c) {
					return
				}
			}
		}
	}
}

// AccTotal accumulates one large batch again and again, so that the totals
// pass the limits of narrow or inexact counters, with single positions before
// and after.
type AccTotal struct {
	N    int `json:"n"`    // size of the batch
	Hit  int `json:"hit"`  // one in Hit positions matches (0: all)
	Reps int `json:"reps"` // accumulations of the batch
}

func checkAccTotal(c AccTotal, x *eng.Ctx) error {
	p, t := make([]float64, c.N), make([]float64, c.N)
	hits := 0
	for i := range p {
		p[i] = float64(i % 7)
		t[i] = p[i]
		if c.Hit > 0 && i%c.Hit != 0 {
			t[i]++
		} else {
			hits++
		}
	}
	m := &accModel{a: metrics.NewAccuracy()}
	tp, err := mkFlat(p, 0)
	if err != nil {
		return err
	}
	tt, err := mkFlat(t, 0)
	if err != nil {
		return err
	}
	single := func() error {
		for _, v := range []float64{1, 2} {
			if err := m.add([]float64{1}, []float64{v}, [2]int{}); err != nil {
				return err
			}
			if err := m.check(); err != nil {
				return err
			}
		}
		return nil
	}
	if err := single(); err != nil {
		return err
	}
	for r := 0; r < c.Reps; r++ {
		if err := m.a.Accumulate(tp, tt); err != nil {
			return fmt.Errorf("Accumulate failed on valid input of length %d: %v", c.N, err)
		}
		m.total += c.N
		m.correct += hits
		if err := m.check(); err != nil {
			return fmt.Errorf("after %d accumulations of %d positions: %v", r+1, c.N, err)
		}
	}
	if err := single(); err != nil {
		return fmt.Errorf("after %d positions: %v", c.N*c.Reps, err)
	}
	x.NonTrivial()
	return nil
}

func C19() *eng.Prop {
	return &eng.Prop{
		ID:     "C19",
		QuickX: 4,
		Rule:   "a case is non-trivial when a history of Accumulate calls has at least one accepted call and at least one further accepted or rejected one, with Result compared with the counting model after every event",
		Parts: []eng.AnyPart{
			eng.Part[AccCase]{Name: "all short vectors", Enum: enumAcc, Check: checkAcc},
			eng.Part[AccCase]{Name: "random histories", Quick: 300000, Thorough: 6000000, Gen: genAcc(40, 12), Check: checkAcc},
			eng.Part[AccCase]{Name: "long histories", Quick: 1500, Thorough: 20000, Gen: genAcc(60, 300), Check: checkAcc},
			eng.Part[AccCase]{Name: "large batches", Quick: 120, Thorough: 2000, Gen: genAcc(40000, 8), Check: checkAcc},
			eng.Part[AccCase]{Name: "huge batches", Quick: 20, Thorough: 300, Gen: eng.Huge(genAcc(140000, 4)), Check: checkAcc},
			eng.Part[AccTotal]{Name: "totals beyond narrow counters", Slow: 8, Check: checkAccTotal, Enum: func(th bool, yield func(AccTotal) bool) {
				// 2^24 is the first integer a single-precision counter cannot pass;
				// the last two make more than 2^16 and 2^17 calls
				for _, c := range []AccTotal{{1 << 19, 0, 33}, {1 << 19, 3, 33}, {1<<18 + 1, 2, 40}, {70000, 5, 20}, {1, 0, 66000}, {3, 2, 140000}} {
					if !yield(c) {
						return
					}
				}
				if th { // and 2^31
					yield(AccTotal{1 << 20, 0, 2060})
				}
			}},
		},
		Assumptions: []string{
			"labels are finite and distinct labels are at least 1e-216 apart (equality of tensors is defined up to 1e-240)",
			"a call with a Tensor the library has not created may be accepted or rejected; it is counted when accepted",
		},
	}
}
