package props

import (
	"math"

	"qv/eng"
	"qv/lib"
	"qv/ref"
)

var implicitOps = []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul"}

func genExpand(ops []string, maxElems int) func(s *eng.Src) OpCase {
	return func(s *eng.Src) OpCase {
		c := OpCase{Op: ref.Op{K: eng.Pick(s, ops)}, Arg: []int{0, 1}}
		var in [][]int
		switch c.Op.K {
		case "Broadcast":
			t := s.Shape(0, 5, maxElems)
			c.Op.S = t
			in = [][]int{s.Sub(t)}
			c.Arg = []int{0}
		case "Dot":
			a, b := s.BPair(0, 4, max(1, maxElems/4))
			k := s.Range(1, 4)
			if s.Big {
				k = s.Size(1, max(4, maxElems/4/max(ref.Prod(a), ref.Prod(b))))
			}
			in = [][]int{append(a, k), append(b, k)}
		case "MatMul":
			a, b := s.BPair(0, 3, max(1, maxElems/9))
			m, k, n := s.Range(1, 4), s.Range(1, 4), s.Range(1, 4)
			if s.Big {
				lim := max(4, maxElems/9/max(ref.Prod(a), ref.Prod(b)))
				*eng.Pick(s, []*int{&m, &k, &n}) = s.Size(1, lim)
			}
			in = [][]int{append(a, m, k), append(b, k, n)}
		default:
			a, b := s.BPair(0, 5, maxElems)
			in = [][]int{a, b}
		}
		style := s.Weighted(6, 1, 1)
		for i, sh := range in {
			v := drawValues(s, c.Op, i, ref.Prod(sh), style, 0)
			c.Lv = append(c.Lv, lib.L{S: sh, V: v, T: true})
		}
		if len(in) == 2 {
			switch s.Weighted(4, 1, 1) {
			case 1:
				c.Lv[0].T = false
			case 2:
				c.Lv[1].T = false
			}
		}
		o, _ := ref.OutShape(c.Op, in...)
		switch s.Weighted(6, 1, 1) {
		case 0:
			c.W = s.NiceN(ref.Prod(o))
		case 1:
		default:
			c.W = s.Floats(ref.Prod(o), func(s *eng.Src) float64 {
				f := math.Ldexp(1+s.Unit(), s.Range(0, 60)-30)
				if s.Bool() {
					f = -f
				}
				return f
			})
		}
		return c
	}
}

func expands(c OpCase) bool {
	o := c.Op.S
	if len(c.Arg) == 2 {
		a, b := c.Lv[c.Arg[0]].S, c.Lv[c.Arg[1]].S
		if c.Op.K == "MatMul" {
			a, b = a[:len(a)-2], b[:len(b)-2]
		}
		return !ref.EqShape(a, b)
	}
	return !ref.EqShape(c.Lv[0].S, o)
}

func checkExpand(c OpCase, x *eng.Ctx) error {
	if err := checkOp(c, x); err != nil {
		return err
	}
	if x.Skipped() {
		return nil
	}
	x.Label("op " + c.Op.K)
	if expands(c) {
		x.Label("expanded " + c.Op.K)
	} else {
		x.Trivial()
	}
	return nil
}

func C07() *eng.Prop {
	o := progOpts{maxSteps: 6, maxElems: 48, maxRank: 4, comps: 1,
		ops: []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Add", "Mul", "MatMul", "UnSqueeze", "Transpose", "SumAlong", "Tanh", "Reshape", "Squeeze", "Slice", "MaxAlong"}}
	ob := o
	ob.explicitB = true
	ob.ops = append([]string{"Broadcast", "Broadcast", "Broadcast"}, o.ops...)
	return &eng.Prop{
		ID:     "C07",
		QuickX: 4,
		Rule:   "a case is non-trivial when an operand really was expanded (or the program back-propagated from a tracked result), and every tracked operand's gradient was compared with the sum of the upstream gradient times the local partial over all copies",
		Parts: []eng.AnyPart{
			eng.Part[OpCase]{Name: "all small shape pairs", Check: checkExpand, Enum: func(th bool, yield func(OpCase) bool) {
				ok := true
				f := func(op ref.Op, in [][]int) bool {
					for m := 1; m < 1<<len(in); m++ {
						if ok = yield(opCaseFor(op, in, m)); !ok {
							return false
						}
					}
					return true
				}
				enumOps(append([]string{"Broadcast"}, implicitOps...), 3, 3, true, f)
				// batch pairs of up to two dimensions
				bs := shapesUpTo(2, 3)
				if th {
					bs = shapesUpTo(3, 3)
				}
				for _, p := range bs {
					for _, q := range bs {
						if _, k := ref.BroadcastShape(p, q); !k || !ok {
							continue
						}
						for _, d := range [][3]int{{1, 1, 1}, {2, 3, 2}, {1, 2, 3}} {
							f(ref.Op{K: "MatMul"}, [][]int{append(append([]int{}, p...), d[0], d[1]), append(append([]int{}, q...), d[1], d[2])})
							if !ok {
								return
							}
						}
						f(ref.Op{K: "Dot"}, [][]int{append(append([]int{}, p...), 2), append(append([]int{}, q...), 2)})
						if !ok {
							return
						}
					}
				}
			}},
			gseqPart(15000, 600000, []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul", "Broadcast"}, 24, true),
			eng.Part[OpCase]{Name: "random implicit expansion", Quick: 100000, Thorough: 4000000, Check: checkExpand, Gen: genExpand(implicitOps, 60)},
			eng.Part[OpCase]{Name: "random explicit expansion", Quick: 20000, Thorough: 800000, Check: checkExpand, Gen: genExpand([]string{"Broadcast"}, 60)},
			eng.Part[OpCase]{Name: "large expansion", Quick: 1500, Thorough: 60000, Check: checkExpand, Gen: eng.Large(genExpand(append([]string{"Broadcast"}, implicitOps...), 9000))},
			eng.Part[OpCase]{Name: "very large expansion", Quick: 120, Thorough: 6000, Check: checkExpand, Gen: eng.Large(genExpand(append([]string{"Broadcast"}, implicitOps...), 90000))},
			eng.Part[OpCase]{Name: "huge expansion", Quick: 24, Thorough: 1500, Check: checkExpand, Gen: eng.Huge(genExpand([]string{"Broadcast", "Add", "Sub", "Mul", "Div"}, 140000))},
			eng.Part[Prog]{Name: "programs with implicit expansion", Quick: 25000, Thorough: 800000, Check: checkProg, Gen: func(s *eng.Src) Prog { return genProg(s, o) }},
			eng.Part[Prog]{Name: "programs with explicit expansion", Quick: 10000, Thorough: 300000, Check: checkProg, Gen: func(s *eng.Src) Prog { return genProg(s, ob) }},
		},
		Assumptions: []string{
			"finding explicit-broadcast-mean: an explicit expanding Broadcast whose gradients equal exactly the averaging variant is counted as that known finding, anything else is a violation",
		},
	}
}
