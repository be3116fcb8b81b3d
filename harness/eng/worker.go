package eng

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	ExitHang    = 3
	ExitHarness = 4
)

type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Seed     uint64          `json:"seed"`
	Tier     string          `json:"tier"`
	Index    int64           `json:"index"`
	Error    string          `json:"error"`
	Shrunk   bool            `json:"shrunk"`
	Case     json.RawMessage `json:"case"`
	// Whole: the case fails only after the cases the same worker ran before
	// it; a replay runs worker Shard of Shards again up to the failure.
	Whole  bool   `json:"whole,omitempty"`
	Shard  int    `json:"shard,omitempty"`
	Shards int    `json:"shards,omitempty"`
	Only   string `json:"only,omitempty"`
}

type Shard struct {
	Evals      int64            `json:"evals"`
	Skipped    int64            `json:"skipped"`
	NonTrivial int64            `json:"nontrivial"`
	Labels     map[string]int64 `json:"labels"`
	PartEvals  map[string]int64 `json:"part_evals"`
	KnownHit   map[string]int64 `json:"known_hit"`
	Samples    map[string][]any `json:"samples"`
	Failure    *Failure         `json:"failure"`
	Done       bool             `json:"done"`
	// Cut lists the parts that ran out of time (quick tier only).
	Cut []string `json:"cut,omitempty"`
}

type WorkerOpts struct {
	Prop     *Prop
	Tier     string
	Seed     uint64
	Shard    int
	Shards   int
	Out      string
	Known    map[string]string
	HangSec  int
	OnlyPart string
	// Before is called with each case before it runs (race runs persist it).
	Before   func(part string, idx int64, c any)
	NoShrink bool
}

// progress is shared with the master through a mapped file.
type progress struct{ b []byte }

func openProgress(path string) (*progress, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(64); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &progress{b}, nil
}

func (p *progress) set(part int, isEnum bool, idx int64, n int64) {
	binary.LittleEndian.PutUint64(p.b[0:], uint64(part))
	e := uint64(0)
	if isEnum {
		e = 1
	}
	binary.LittleEndian.PutUint64(p.b[8:], e)
	binary.LittleEndian.PutUint64(p.b[16:], uint64(idx))
	binary.LittleEndian.PutUint64(p.b[24:], uint64(n))
}

// ReadProgress returns the part number, whether it is enumerated, and the case
// index a worker was executing.
func ReadProgress(path string) (part int, isEnum bool, idx int64, n int64, err error) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 32 {
		return 0, false, 0, 0, fmt.Errorf("no progress file")
	}
	return int(binary.LittleEndian.Uint64(b[0:])), binary.LittleEndian.Uint64(b[8:]) == 1,
		int64(binary.LittleEndian.Uint64(b[16:])), int64(binary.LittleEndian.Uint64(b[24:])), nil
}

func caseSeed(o *WorkerOpts, part string, idx int64) uint64 {
	return Mix(o.Seed, HashString(o.Prop.ID), HashString(part), uint64(idx))
}

// GenCase regenerates one case.
func GenCase(o *WorkerOpts, part int, isEnum bool, idx int64) (any, string, error) {
	p := o.Prop.Parts[part]
	if !isEnum {
		return p.gen(NewSrc(caseSeed(o, p.PartName(), idx))), p.PartName(), nil
	}
	var out any
	i := int64(0)
	p.enum(o.Tier == "thorough", func(c any) bool {
		if i == idx {
			out = c
			return false
		}
		i++
		return true
	})
	if out == nil {
		return nil, "", fmt.Errorf("no such case")
	}
	return out, p.PartName(), nil
}

// RunCase judges one case. A check that panics over what the library returned
// (a nil object without an error, a tensor of a wrong size) has found results
// that cannot be used; explicit HarnessPanics remain errors of the harness.
func RunCase(p AnyPart, c any, x *Ctx) (err error) {
	x.nontrivial, x.skipped = false, false
	defer func() {
		if r := recover(); r != nil {
			h, ok := r.(HarnessPanic)
			if !ok || !h.Examining {
				panic(r)
			}
			err = fmt.Errorf("the results of the library could not be used: %s", h.Msg)
		}
	}()
	return Guard(func() error { return p.check(c, x) })
}

func newCtx(o *WorkerOpts) *Ctx {
	return &Ctx{Thorough: o.Tier == "thorough", labels: map[string]int64{}, known: o.Known, knownHit: map[string]int64{}}
}

// ReplayCase runs a stored case in this process.
func ReplayCase(o *WorkerOpts, f *Failure) error {
	if f.Whole {
		return replayWhole(f)
	}
	p := o.Prop.Part(f.Part)
	if p == nil {
		return fmt.Errorf("unknown part %q", f.Part)
	}
	c, err := p.decode(f.Case)
	if err != nil {
		panic(HarnessPanic{Msg: "bad replay file: " + err.Error()})
	}
	x := newCtx(o)
	x.Replay = true
	return RunCase(p, c, x)
}

// slowMS is a development aid: report cases slower than this.
var slowMS, _ = strconv.Atoi(os.Getenv("QV_SLOW"))

const (
	// quickSec bounds the generation of new cases in the quick tier; it is ten
	// times what an idle machine needs.
	quickSec     = 600
	deadlockSec  = 8
	deadlockMark = "deadlock: all wait for each other: "
)

func Worker(o *WorkerOpts) int {
	prog, err := openProgress(filepath.Join(o.Out, fmt.Sprintf("progress.%d", o.Shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot open progress file:", err)
		return ExitHarness
	}
	var n int64
	if o.HangSec > 0 {
		debug.SetMemoryLimit(2 << 30)
		go func() {
			last, since := int64(-1), time.Now()
			for {
				time.Sleep(500 * time.Millisecond)
				cur := int64(binary.LittleEndian.Uint64(prog.b[24:]))
				if cur != last {
					last, since = cur, time.Now()
				} else if lim := o.HangSec * o.Prop.Parts[binary.LittleEndian.Uint64(prog.b[0:])].slow(); time.Since(since) > time.Duration(lim)*time.Second {
					fmt.Fprintf(os.Stderr, "hang: one case has been running for %d s\n", lim)
					os.Exit(ExitHang)
				} else if time.Since(since) > deadlockSec*time.Second {
					if w, ok := deadlocked(); ok {
						fmt.Fprintf(os.Stderr, "%s%s\n", deadlockMark, w)
						os.Exit(ExitHang)
					}
				}
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 3<<30 {
					// most of it may be garbage
					runtime.GC()
					runtime.ReadMemStats(&m)
				}
				if m.HeapAlloc > 3<<30 {
					p := o.Prop.Parts[binary.LittleEndian.Uint64(prog.b[0:])].PartName()
					fmt.Fprintf(os.Stderr, "hang: one case uses more than 3 GB of memory (part %s)\n", p)
					if d := os.Getenv("QV_HEAP"); d != "" {
						if f, err := os.Create(filepath.Join(d, fmt.Sprintf("heap.%d", o.Shard))); err == nil {
							pprof.WriteHeapProfile(f)
							f.Close()
						}
					}
					os.Exit(ExitHang)
				}
			}
		}()
	}

	x := newCtx(o)
	sh := &Shard{Labels: x.labels, KnownHit: x.knownHit, PartEvals: map[string]int64{}, Samples: map[string][]any{}}
	seen := map[uint64]struct{}{}
	write := func() int {
		hf, _ := os.Create(filepath.Join(o.Out, fmt.Sprintf("hashes.%d", o.Shard)))
		buf := make([]byte, 0, 8*len(seen))
		for h := range seen {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		hf.Write(buf)
		hf.Close()
		b, err := json.Marshal(sh)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot encode shard:", err)
			return ExitHarness
		}
		tmp := filepath.Join(o.Out, fmt.Sprintf("shard.%d.tmp", o.Shard))
		if err := os.WriteFile(tmp, b, 0o644); err != nil {
			return ExitHarness
		}
		if err := os.Rename(tmp, filepath.Join(o.Out, fmt.Sprintf("shard.%d.json", o.Shard))); err != nil {
			return ExitHarness
		}
		return 0
	}

	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintf(os.Stderr, "%v\n", r)
				if _, ok := r.(HarnessPanic); !ok {
					_, trace, _ := panicOrigin()
					fmt.Fprintln(os.Stderr, trace)
				}
				code = ExitHarness
			}
		}()
		workEnd := time.Now().Add(quickSec * time.Second)
		for pi, p := range o.Prop.Parts {
			if o.OnlyPart != "" && p.PartName() != o.OnlyPart {
				continue
			}
			pi, p := pi, p
			// a part takes at most half of the time that is left
			end := time.Now().Add(time.Until(workEnd) / 2)
			late := func() bool {
				if o.Tier == "thorough" || time.Now().Before(end) {
					return false
				}
				sh.Cut = append(sh.Cut, p.PartName())
				return true
			}
			account := func(c any) {
				sh.Evals++
				sh.PartEvals[p.PartName()]++
				if x.skipped {
					sh.Skipped++
					return
				}
				if !x.nontrivial {
					return
				}
				sh.NonTrivial++
				b, err := json.Marshal(c)
				if err != nil {
					panic(HarnessPanic{Msg: "case is not serialisable: " + err.Error()})
				}
				h := fnv.New64a()
				h.Write([]byte(p.PartName()))
				h.Write(b)
				seen[h.Sum64()] = struct{}{}
				if len(b) >= 900 && len(sh.Samples[p.PartName()]) == 0 && p.plan(false) <= 3000 {
					sh.Samples[p.PartName()] = append(sh.Samples[p.PartName()], "(cut) "+string(b[:300]))
				} else if len(b) < 900 && len(sh.Samples[p.PartName()]) < 2 {
					sh.Samples[p.PartName()] = append(sh.Samples[p.PartName()], json.RawMessage(b))
				}
			}
			fail := func(idx int64, c any, err error, shr bool) {
				b, _ := json.Marshal(c)
				sh.Failure = &Failure{Property: o.Prop.ID, Part: p.PartName(), Seed: o.Seed, Tier: o.Tier, Index: idx,
					Error: err.Error(), Shrunk: shr, Case: b}
			}
			if p.hasEnum() {
				i := int64(-1)
				p.enum(o.Tier == "thorough", func(c any) bool {
					i++
					if int(i%int64(o.Shards)) != o.Shard {
						return true
					}
					n++
					prog.set(pi, true, i, n)
					if o.Before != nil {
						o.Before(p.PartName(), i, c)
					}
					if err := RunCase(p, c, x); err != nil {
						fail(i, c, err, false)
						return false
					}
					account(c)
					return !late()
				})
				if sh.Failure != nil {
					return
				}
			}
			total := p.plan(o.Tier == "thorough")
			if o.Tier != "thorough" {
				total *= max(1, o.Prop.QuickX)
			}
			for k := o.Shard; k < total; k += o.Shards {
				n++
				prog.set(pi, false, int64(k), n)
				src := NewSrc(caseSeed(o, p.PartName(), int64(k)))
				c := p.gen(src)
				if o.Before != nil {
					o.Before(p.PartName(), int64(k), c)
				}
				t0 := time.Now()
				err := RunCase(p, c, x)
				if d := time.Since(t0); slowMS > 0 && d > time.Duration(slowMS)*time.Millisecond {
					b, _ := json.Marshal(c)
					fmt.Fprintf(os.Stderr, "slow: %s case %d: %v %.300s\n", p.PartName(), k, d, b)
				}
				if err == nil {
					account(c)
					if late() {
						break
					}
					continue
				}
				if o.NoShrink {
					fail(int64(k), c, err, false)
					return
				}
				// shrink
				bc, be := c, err
				sx := newCtx(o)
				kind := errKind(err)
				best := shrink(src.Rec, func(ch []uint64) (bool, []uint64) {
					n++
					prog.set(pi, false, int64(k), n)
					s2 := ReplaySrc(ch)
					c2 := p.gen(s2)
					e2 := RunCase(p, c2, sx)
					used := s2.Rec
					if len(used) > len(ch) {
						// missing choices read as zero; keep them explicit
						used = append([]uint64{}, used...)
					}
					return e2 != nil && errKind(e2) == kind, used
				}, 20*time.Second, 4000)
				s2 := ReplaySrc(best)
				c2 := p.gen(s2)
				if e2 := RunCase(p, c2, sx); e2 != nil {
					bc, be = c2, e2
				}
				fail(int64(k), bc, be, true)
				return
			}
		}
	}()
	sh.Done = code == 0
	if w := write(); w != 0 {
		return w
	}
	return code
}

// errKind is the part of an error message before the first ':' — shrinking
// stays with the kind of failure it started from.
func errKind(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i]
	}
	return s
}
