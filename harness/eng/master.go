package eng

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

const (
	exitRace   = 66
	hangSecDef = 60
)

type run struct {
	prop  *Prop
	tier  string
	seed  uint64
	out   string
	known map[string]string
	root  string

	only   string
	shards int
	start  time.Time
	hung   *Failure // a hang that its case alone did not reproduce
}

// LoadKnown reads the findings listed for a property: lines of the form
// "KNOWN-FINDING: property=<id> id=<finding id> <what fails>".
func LoadKnown(path, prop string) (map[string]string, error) {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m, err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		ln := sc.Text()
		rest, ok := strings.CutPrefix(ln, "KNOWN-FINDING: property="+prop+" id=")
		if !ok {
			continue
		}
		id, what, _ := strings.Cut(rest, " ")
		m[id] = what
	}
	return m, sc.Err()
}

// Main is the entry point of the qv binary.
func Main(props []*Prop) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: qv check|worker|one|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	id := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick|thorough")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "work directory")
	root := fs.String("root", "/verif", "")
	part := fs.Int("part", 0, "")
	only := fs.String("only", "", "run only this part")
	isEnum := fs.Bool("enum", false, "")
	idx := fs.Int64("idx", 0, "")
	fs.Parse(os.Args[2:])

	LoadDict()
	var prop *Prop
	find := func(id string) *Prop {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		return nil
	}
	if *id != "" {
		prop = find(*id)
		if prop == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *id)
			os.Exit(2)
		}
	}
	knownPath := filepath.Join(*root, "known_findings.txt")
	load := func(id string) map[string]string {
		k, err := LoadKnown(knownPath, id)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot read known findings:", err)
			os.Exit(2)
		}
		return k
	}

	wholeRoot = *root
	switch cmd {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Race)
		}
	case "worker":
		o := &WorkerOpts{Prop: prop, Tier: *tier, Seed: *seed, Shard: *shard, Shards: *shards, Out: *out,
			Known: load(*id), HangSec: hangSecDef, OnlyPart: *only}
		if prop.Race || os.Getenv("QV_NOSHRINK") != "" {
			o.NoShrink = true
		}
		os.Exit(Worker(o))
	case "one":
		o := &WorkerOpts{Prop: prop, Tier: *tier, Seed: *seed, Known: load(*id)}
		c, name, err := GenCase(o, *part, *isEnum, *idx)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(ExitHarness)
		}
		b, _ := json.Marshal(c)
		f := &Failure{Property: *id, Part: name, Seed: *seed, Tier: *tier, Index: *idx, Case: b}
		if *out != "" {
			fb, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(*out, fb, 0o644)
			return
		}
		os.Exit(replay(o, f))
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := find(f.Property)
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property in replay file")
			os.Exit(2)
		}
		o := &WorkerOpts{Prop: p, Tier: f.Tier, Seed: f.Seed, Known: load(f.Property)}
		os.Exit(replay(o, &f))
	case "check":
		r := &run{prop: prop, tier: *tier, seed: *seed, root: *root, known: load(*id)}
		os.Exit(r.check(*only))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func replay(o *WorkerOpts, f *Failure) (code int) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, r)
			code = ExitHarness
		}
	}()
	if !f.Whole {
		go func() {
			time.Sleep(deadlockSec * time.Second)
			for ; ; time.Sleep(time.Second) {
				if w, ok := deadlocked(); ok {
					fmt.Printf("FAILS property=%s part=%s: %s%s\n", f.Property, f.Part, deadlockMark, w)
					os.Exit(1)
				}
			}
		}()
	}
	if err := ReplayCase(o, f); err != nil {
		fmt.Printf("FAILS property=%s part=%s: %v\n", f.Property, f.Part, err)
		return 1
	}
	fmt.Printf("HOLDS property=%s part=%s\n", f.Property, f.Part)
	return 0
}

func (r *run) env() []string {
	e := os.Environ()
	e = append(e, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=single")
	if !r.prop.Race {
		e = append(e, "GOMAXPROCS=2")
	}
	return e
}

// runShard runs one worker alone, in a fresh process.
func runShard(f *Failure, root string, limit time.Duration) (code int, stderr, dir string, timedOut bool, err error) {
	dir, err = os.MkdirTemp("", "qv-"+f.Property+"-")
	if err != nil {
		return 0, "", "", false, err
	}
	c := exec.Command(os.Args[0], "worker", "-prop", f.Property, "-tier", f.Tier, "-seed", strconv.FormatUint(f.Seed, 10),
		"-shard", strconv.Itoa(f.Shard), "-shards", strconv.Itoa(f.Shards), "-out", dir, "-root", root, "-only", f.Only)
	c.Env = append(os.Environ(), "QV_NOSHRINK=1", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var eb bytes.Buffer
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		return 0, "", dir, false, err
	}
	t := time.AfterFunc(limit, func() { timedOut = true; c.Process.Kill() })
	c.Wait()
	t.Stop()
	return c.ProcessState.ExitCode(), eb.String(), dir, timedOut, nil
}

// wholeRoot is the root directory of the running command.
var wholeRoot string

func replayWhole(f *Failure) error {
	code, stderr, dir, to, err := runShard(f, wholeRoot, 2*time.Hour)
	defer os.RemoveAll(dir)
	if err != nil {
		panic(HarnessPanic{Msg: err.Error()})
	}
	if to {
		return fmt.Errorf("worker %d of %d did not end", f.Shard, f.Shards)
	}
	if code != 0 {
		return fmt.Errorf("worker %d of %d ended with code %d: %s", f.Shard, f.Shards, code, tail(stderr, 1000))
	}
	var sh Shard
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard.%d.json", f.Shard)))
	if err == nil {
		err = json.Unmarshal(b, &sh)
	}
	if err != nil {
		panic(HarnessPanic{Msg: err.Error()})
	}
	if sh.Failure != nil {
		return fmt.Errorf("worker %d of %d, part %s, case %d: %s", f.Shard, f.Shards, sh.Failure.Part, sh.Failure.Index, sh.Failure.Error)
	}
	return nil
}

func (r *run) check(only string) int {
	start := time.Now()
	r.only, r.start = only, start
	dir, err := os.MkdirTemp("", "qv-"+r.prop.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	r.out = dir
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if r.prop.Single {
		shards = 1
	}
	if r.prop.Race && shards > 4 {
		shards = 4
	}
	r.shards = shards
	type end struct {
		shard, code int
		stderr      string
	}
	var failure *Failure
	var harnessErr string
	shardRes := map[int]*Shard{}
	hangs := 0
	// a worker that ended for a reason its case alone does not reproduce (a
	// busy machine, a lack of memory) is tried again, with all that it stopped
	for round := 0; round < 3; round++ {
		var todo []int
		for i := 0; i < shards; i++ {
			if shardRes[i] == nil {
				todo = append(todo, i)
			}
		}
		if len(todo) == 0 || failure != nil {
			break
		}
		harnessErr = ""
		again := false
		ends := make(chan end, shards)
		var cmds []*exec.Cmd
		killAll := func() {
			for _, c := range cmds {
				c.Process.Kill() // an ended process is refused
			}
		}
		for _, i := range todo {
			c := exec.Command(os.Args[0], "worker", "-prop", r.prop.ID, "-tier", r.tier, "-seed", strconv.FormatUint(r.seed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", dir, "-root", r.root, "-only", only)
			c.Env = r.env()
			var eb bytes.Buffer
			c.Stderr = &eb
			if err := c.Start(); err != nil {
				fmt.Fprintln(os.Stderr, "cannot start worker:", err)
				killAll()
				return 2
			}
			cmds = append(cmds, c)
			go func(i int) {
				err := c.Wait()
				code := 0
				if err != nil {
					code = c.ProcessState.ExitCode()
					if code == 0 {
						code = -1
					}
				}
				ends <- end{i, code, eb.String()}
			}(i)
		}
		stopped := false
		for range todo {
			e := <-ends
			if stopped {
				continue
			}
			sp := filepath.Join(dir, fmt.Sprintf("shard.%d.json", e.shard))
			if e.code == 0 {
				b, err := os.ReadFile(sp)
				var sh Shard
				if err == nil {
					err = json.Unmarshal(b, &sh)
				}
				if err != nil {
					harnessErr = "unreadable shard result: " + err.Error()
					stopped = true
					killAll()
					continue
				}
				shardRes[e.shard] = &sh
				if sh.Failure != nil {
					sh.Failure.Shard, sh.Failure.Shards, sh.Failure.Only = e.shard, shards, only
					if failure == nil || sh.Failure.Part == failure.Part && sh.Failure.Index < failure.Index {
						failure = sh.Failure
					}
					stopped = true
					killAll()
				}
				continue
			}
			// abnormal end
			stopped = true
			killAll()
			switch {
			case e.code == ExitHarness:
				harnessErr = "worker error: " + tail(e.stderr, 3000)
			case e.code == ExitHang, e.code == exitRace, e.code == 2:
				f, why := r.confirm(e.shard, e.code, e.stderr)
				if f != nil {
					failure = f
				} else {
					harnessErr = why
					again = e.code == ExitHang
					if r.hung != nil {
						hangs++
					}
					if hangs >= 2 {
						// the second time in as many rounds: not the machine
						failure, harnessErr, again = r.hung, "", false
					}
				}
			default:
				harnessErr = fmt.Sprintf("worker ended with code %d: %s", e.code, tail(e.stderr, 2000))
				again = true
			}
		}
		if !again {
			break
		}
	}

	// aggregate
	agg := &Shard{Labels: map[string]int64{}, KnownHit: map[string]int64{}, PartEvals: map[string]int64{}, Samples: map[string][]any{}}
	hashes := map[uint64]struct{}{}
	for i := 0; i < shards; i++ {
		sh := shardRes[i]
		if sh == nil {
			continue
		}
		agg.Evals += sh.Evals
		for _, p := range sh.Cut {
			if !slices.Contains(agg.Cut, p) {
				agg.Cut = append(agg.Cut, p)
			}
		}
		agg.Skipped += sh.Skipped
		agg.NonTrivial += sh.NonTrivial
		for k, v := range sh.Labels {
			agg.Labels[k] += v
		}
		for k, v := range sh.KnownHit {
			agg.KnownHit[k] += v
		}
		for k, v := range sh.PartEvals {
			agg.PartEvals[k] += v
		}
		for k, v := range sh.Samples {
			if len(agg.Samples[k]) < 2 {
				agg.Samples[k] = append(agg.Samples[k], v[0])
			}
		}
		b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", i)))
		for j := 0; j+8 <= len(b); j += 8 {
			hashes[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
		}
	}
	viol := 0
	var replayPath string
	if failure != nil {
		viol = 1
		if !failure.Whole && !r.prop.Race {
			// does it take the cases before it?
			if code, _, to := r.replayProc(failure, 20*time.Second); code == 0 && !to {
				failure.Whole = true
			}
		}
		replayPath = r.saveReplay(failure)
	}
	var samples []any
	var names []string
	for k := range agg.Samples {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for _, s := range agg.Samples[k] {
			samples = append(samples, map[string]any{"part": k, "case": s})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         agg.Evals,
		"distinct_nontrivial": len(hashes),
		"nontrivial":          agg.NonTrivial,
		"skipped":             agg.Skipped,
		"rule":                "cases come from enumerated spaces and from generators driven by recorded choice sequences (seed, property, part, index); " + r.prop.Rule,
		"parts":               agg.PartEvals,
		"classes":             agg.Labels,
		"known_finding_hits":  agg.KnownHit,
		"samples":             samples,
		"exhaustive":          false,
	}
	if len(agg.Cut) > 0 {
		cov["parts_cut_short"] = agg.Cut
		fmt.Printf("out of time, cut short: %s\n", strings.Join(agg.Cut, "; "))
	}
	if harnessErr != "" {
		cov["error"] = harnessErr
	}
	ev := map[string]any{
		"property": r.prop.ID, "tier": r.tier, "seed": r.seed, "level": "exploration", "coverage": cov,
		"assumptions": r.prop.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	if r.prop.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	evDir := filepath.Join(r.root, "evidence")
	os.MkdirAll(evDir, 0o755)
	if only == "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(evDir, r.prop.ID+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1f s\n", r.prop.ID, r.tier, r.seed, agg.Evals, len(hashes), agg.Skipped, time.Since(start).Seconds())
	if only != "" || os.Getenv("QV_LABELS") != "" {
		var ls []string
		for k, v := range agg.Labels {
			ls = append(ls, fmt.Sprintf("  %-40s %d", k, v))
		}
		sort.Strings(ls)
		fmt.Println(strings.Join(ls, "\n"))
	}
	if failure != nil {
		fmt.Printf("part %s, case %d: %s\n", failure.Part, failure.Index, failure.Error)
		if len(failure.Case) < 2000 {
			fmt.Printf("case: %s\n", failure.Case)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop.ID, replayPath)
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "error:", harnessErr)
		return 2
	}
	if agg.Evals == 0 || (len(hashes) == 0 && only == "") {
		fmt.Fprintln(os.Stderr, "error: nothing was tested")
		return 2
	}
	var ks []string
	for k := range agg.KnownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop.ID, r.known[k])
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (r *run) saveReplay(f *Failure) string {
	dir := filepath.Join(r.root, "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(f, "", " ")
	p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", f.Property, HashString(f.Part+string(f.Case))))
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// replayProc runs a stored case in a fresh process.
func (r *run) replayProc(f *Failure, limit time.Duration) (code int, output string, timedOut bool) {
	p := filepath.Join(r.out, fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(f)
	os.WriteFile(p, b, 0o644)
	defer os.Remove(p)
	c := exec.Command(os.Args[0], "replay", "-root", r.root, p)
	c.Env = r.env()
	var ob bytes.Buffer
	c.Stdout, c.Stderr = &ob, &ob
	if err := c.Start(); err != nil {
		return -1, err.Error(), false
	}
	done := make(chan struct{})
	go func() { c.Wait(); close(done) }()
	select {
	case <-done:
		return c.ProcessState.ExitCode(), ob.String(), false
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return -1, ob.String(), true
	}
}

// confirm decides whether an abnormal worker end (crash, hang, data race) is
// caused by the case it was executing: the case is regenerated and run alone
// in a fresh process. Only a confirmed, attributable failure is a violation.
func (r *run) confirm(shard, code int, stderr string) (*Failure, string) {
	part, isEnum, idx, _, err := ReadProgress(filepath.Join(r.out, fmt.Sprintf("progress.%d", shard)))
	if err != nil {
		return nil, fmt.Sprintf("worker ended with code %d and left no progress: %s", code, tail(stderr, 2000))
	}
	o := &WorkerOpts{Prop: r.prop, Tier: r.tier, Seed: r.seed, Known: r.known}
	p := r.prop.Parts[part]
	src := NewSrc(caseSeed(o, p.PartName(), idx))
	var c any
	if isEnum {
		c, _, err = GenCase(o, part, true, idx)
		if err != nil {
			return nil, err.Error()
		}
	} else {
		c = p.gen(src)
	}
	mk := func(c any, msg string) *Failure {
		b, _ := json.Marshal(c)
		return &Failure{Property: r.prop.ID, Part: p.PartName(), Seed: r.seed, Tier: r.tier, Index: idx, Error: msg, Case: b}
	}
	classify := func(code int, out string, timedOut bool) string {
		switch {
		case timedOut || code == ExitHang:
			return fmt.Sprintf("hang: the call does not return within %d s", hangSecDef*p.slow())
		case code == exitRace && strings.Contains(out, "DATA RACE"):
			if strings.Contains(out, "sahandsafizadeh/qeep") || strings.Contains(out, "gonum") || strings.Contains(out, "x/exp/rand") {
				return "data race: " + firstRace(out)
			}
			return ""
		case code == 2 && strings.Contains(out, "sahandsafizadeh/qeep") && (strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:")):
			if strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory") {
				return ""
			}
			return "crash: " + firstLine(out)
		case code == 1:
			return "fails: " + tail(out, 500)
		}
		return ""
	}
	if i := strings.Index(stderr, deadlockMark); i >= 0 && code == ExitHang {
		return mk(c, "hang, "+firstOf(stderr[i:])), ""
	}
	first := classify(code, stderr, false)
	var msg string
	for try := 0; try < 3 && msg == ""; try++ {
		cc, out, to := r.replayProc(mk(c, ""), time.Duration(hangSecDef*p.slow())*time.Second)
		msg = classify(cc, out, to)
		if msg == "" && !r.prop.Race {
			break
		}
	}
	if msg == "" {
		if (code == exitRace || strings.Contains(stderr, "fatal error: concurrent map")) && first != "" {
			// the race detector has no false positives: report it even if the
			// schedule did not recur
			return mk(c, first), ""
		}
		if f := r.confirmWhole(mk(c, ""), shard, code, stderr); f != nil {
			return f, ""
		}
		r.hung = nil
		if code == ExitHang && strings.Contains(stderr, "hang: one case has been running") {
			r.hung = mk(c, "hang: calls do not return, at one case or another: "+firstOf(stderr))
		}
		return nil, fmt.Sprintf("worker ended with code %d, not reproduced by its case alone: %s", code, tail(stderr, 3000))
	}
	f := mk(c, msg)
	if r.prop.Race && !isEnum && !strings.HasPrefix(msg, "hang") {
		best := shrink(src.Rec, func(ch []uint64) (bool, []uint64) {
			s2 := ReplaySrc(ch)
			c2 := p.gen(s2)
			cc, out, to := r.replayProc(mk(c2, ""), 20*time.Second)
			return !to && classify(cc, out, false) != "", s2.Rec
		}, 60*time.Second, 300)
		c2 := p.gen(ReplaySrc(best))
		for try := 0; try < 3; try++ {
			cc, out, to := r.replayProc(mk(c2, ""), 20*time.Second)
			if m := classify(cc, out, to); m != "" && !to {
				f = mk(c2, m)
				f.Shrunk = true
				break
			}
		}
	}
	return f, ""
}

// confirmWhole runs the worker that ended again, alone: what an earlier case
// left behind (a lock that is still held, a counter, a grown cache) makes the
// same worker end in the same way at the same case.
func (r *run) confirmWhole(f *Failure, shard, code int, stderr string) *Failure {
	if code == exitRace || code == 2 && (!strings.Contains(stderr, "sahandsafizadeh/qeep") || strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "cannot allocate")) {
		return nil
	}
	f.Shard, f.Shards, f.Only, f.Whole = shard, r.shards, r.only, true
	part, isEnum, idx, _, _ := ReadProgress(filepath.Join(r.out, fmt.Sprintf("progress.%d", shard)))
	took := time.Since(r.start)
	c2, out, dir, to, err := runShard(f, r.root, 2*took+hangSecDef*time.Second)
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	if err != nil || to || c2 != code {
		return nil
	}
	p2, e2, i2, _, err := ReadProgress(filepath.Join(dir, fmt.Sprintf("progress.%d", shard)))
	if err != nil || p2 != part || e2 != isEnum || i2 != idx {
		return nil
	}
	if code == ExitHang {
		f.Error = "hang: a call does not return after the cases the same worker ran before"
	} else {
		f.Error = "crash after the cases the same worker ran before: " + firstLine(out)
	}
	return f
}

func firstOf(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return tail(l, 500)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.Contains(l, "panic:") {
			return strings.TrimSpace(l)
		}
	}
	return tail(s, 300)
}

func firstRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > 1200 {
		s = s[:1200]
	}
	return s
}
