package eng

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
)

// Ctx is handed to a Check: classification, skips and known findings.
type Ctx struct {
	Thorough   bool
	labels     map[string]int64
	nontrivial bool
	skipped    bool
	known      map[string]string
	knownHit   map[string]int64
	Replay     bool
}

func (x *Ctx) Label(format string, a ...any) {
	if x.labels == nil {
		return
	}
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	x.labels[format]++
}

// NonTrivial marks the current case as non-trivial by the property's rule.
func (x *Ctx) NonTrivial() { x.nontrivial = true }

// Trivial withdraws NonTrivial.
func (x *Ctx) Trivial() { x.nontrivial = false }

// Skipped tells whether Skip was called.
func (x *Ctx) Skipped() bool { return x.skipped }

// Skip marks the case as outside the property's domain (counted, not judged).
func (x *Ctx) Skip() { x.skipped = true }

// Known reports whether the given finding id is listed in known_findings.txt
// for this property, and counts the hit.
func (x *Ctx) Known(id string) bool {
	if _, ok := x.known[id]; !ok {
		return false
	}
	x.knownHit[id]++
	return true
}

// AnyPart is one generator + oracle of a property.
type AnyPart interface {
	PartName() string
	plan(thorough bool) int
	hasEnum() bool
	enum(thorough bool, yield func(c any) bool)
	gen(s *Src) any
	check(c any, x *Ctx) error
	decode(b []byte) (any, error)
	slow() int
}

// Part is a typed part. Gen draws random cases, Enum lists a finite space.
type Part[T any] struct {
	Name            string
	Quick, Thorough int
	Gen             func(s *Src) T
	Enum            func(thorough bool, yield func(T) bool)
	Check           func(c T, x *Ctx) error
	// Slow multiplies the time after which a case counts as hanging.
	Slow int
}

func (p Part[T]) PartName() string { return p.Name }
func (p Part[T]) slow() int        { return max(1, p.Slow) }
func (p Part[T]) plan(th bool) int {
	if p.Gen == nil {
		return 0
	}
	if th {
		return p.Thorough
	}
	return p.Quick
}
func (p Part[T]) hasEnum() bool { return p.Enum != nil }
func (p Part[T]) enum(th bool, yield func(c any) bool) {
	p.Enum(th, func(c T) bool { return yield(c) })
}
func (p Part[T]) gen(s *Src) any            { return p.Gen(s) }
func (p Part[T]) check(c any, x *Ctx) error { return p.Check(c.(T), x) }
func (p Part[T]) decode(b []byte) (any, error) {
	var c T
	err := json.Unmarshal(b, &c)
	return c, err
}

// Prop is a property: its parts and the rule that makes a case non-trivial.
type Prop struct {
	ID    string
	Rule  string
	Parts []AnyPart
	// Assumptions are copied to the evidence.
	Assumptions []string
	// QuickX multiplies the number of random cases of the quick tier.
	QuickX int
	// Single runs the whole property in one worker process.
	Single bool
	// Race: the property needs the race-detector build.
	Race bool
}

func (p *Prop) Part(name string) AnyPart {
	for _, q := range p.Parts {
		if q.PartName() == name {
			return q
		}
	}
	return nil
}

// HarnessPanic is a panic that was not raised inside the code under test.
type HarnessPanic struct {
	Msg string
	// Examining: an unplanned panic, raised while a check handled results.
	Examining bool
}

func (h HarnessPanic) Error() string { return h.Msg }

// CallerIsLib tells whether the function that panicked (the first frame that
// is not part of the Go runtime or standard library) belongs to the code under
// test. It must be called from a deferred function while panicking.
func panicOrigin() (origin string, trace string, lib bool) {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	var sb strings.Builder
	for {
		f, more := fr.Next()
		if f.Function == "runtime.gopanic" || f.Function == "runtime.sigpanic" || f.Function == "runtime.panicmem" {
			seen = true
		} else if seen && !strings.HasPrefix(f.Function, "runtime.") {
			if origin == "" && (strings.Contains(f.Function, "sahandsafizadeh/qeep") || strings.Contains(f.Function, "gonum") || strings.HasPrefix(f.Function, "qv/") || strings.HasPrefix(f.Function, "main.")) {
				origin = f.Function
			}
			fmt.Fprintf(&sb, "  %s (%s:%d)\n", f.Function, f.File, f.Line)
		}
		if !more {
			break
		}
	}
	lib = strings.Contains(origin, "sahandsafizadeh/qeep") || strings.Contains(origin, "gonum")
	return origin, sb.String(), lib
}

// Guard runs f and turns a panic raised by the code under test into an error.
// A panic of the harness itself is re-raised as HarnessPanic.
func Guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessPanic); ok {
				panic(h)
			}
			origin, trace, lib := panicOrigin()
			if !lib {
				panic(HarnessPanic{fmt.Sprintf("%v at %s\n%s", r, origin, trace), true})
			}
			err = fmt.Errorf("panic in the code under test: %v (in %s)", r, origin)
		}
	}()
	return f()
}
