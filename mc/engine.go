// Command mc is the explicit-state / bounded-exhaustive explorer for
// aureleoules/btc. See /verif/DESIGN.md.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/ref"
)

// heart counts the completed steps of the current case, for the hang watch of
// the parent: a case of many steps on a slow machine is not a hang.
var heart = new(int64)

func beat() { atomic.AddInt64(heart, 1) }

// Case is one deterministic operation trace on the real library.
type Case struct {
	Name string
	Run  func(c *Ctx)
}

// Prop is one property: a finite enumeration of cases.
type Prop struct {
	ID     string
	Bound  string // stated bound, for the evidence file
	Gen    func(g *Gen)
	Assume []string
	// Extra runs in the parent after the workers (C20 only).
	Extra func(p *Parent)
	// Cheap: the quick tier already uses the thorough alphabets, the thorough
	// tier deeper ones (Gen.D).
	Cheap bool
}

// Gen collects cases.
type Gen struct {
	Thorough bool
	Deep     bool
	cases    []Case
}

// D picks a bound by level for properties marked Cheap.
func (g *Gen) D(quick, thorough, deep int) int {
	if g.Deep {
		return deep
	}
	return g.T(quick, thorough)
}

// Add registers a case; order and names are deterministic.
func (g *Gen) Add(name string, run func(c *Ctx)) {
	g.cases = append(g.cases, Case{name, run})
}

// T picks a bound by tier.
func (g *Gen) T(quick, thorough int) int {
	if g.Thorough {
		return thorough
	}
	return quick
}

// Ctx is the execution context of a case.
type Ctx struct {
	trans       int64
	states      []uint64
	nextCompact int
	outcomes    map[string]int64
	verbose     bool
	trace       []string
	tmp         string // scratch directory
	cap         *capture
}

type caseFailure struct{ msg string }

// outOfTime ends a case that was not explored completely.
type outOfTime struct{}

var endAt time.Time // of this worker; zero: none

// inTime ends the case when the time of the run is over.
func (c *Ctx) inTime() {
	if !endAt.IsZero() && time.Now().After(endAt) {
		panic(outOfTime{})
	}
}

// Failf aborts the case as a violation.
func (c *Ctx) Failf(f string, a ...any) { panic(caseFailure{fmt.Sprintf(f, a...)}) }

// State records a canonical model state.
func (c *Ctx) State(parts ...string) {
	beat()
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	c.states = append(c.states, h.Sum64())
	if len(c.states) > c.nextCompact {
		c.compact()
		c.nextCompact = max(1<<22, 2*len(c.states))
	}
}

func (c *Ctx) compact() {
	slices.Sort(c.states)
	c.states = slices.Compact(c.states)
}

// Outcome counts the class of an observed outcome.
func (c *Ctx) Outcome(s string) { c.outcomes[s]++ }

// Logf adds to the trace of a replay.
func (c *Ctx) Logf(f string, a ...any) {
	if c.verbose {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// call runs one API call; a panic is a violation.
func (c *Ctx) call(what func() string, f func()) {
	c.trans++
	beat()
	if c.verbose {
		c.Logf("%s", what())
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case caseFailure, outOfTime:
				panic(r)
			}
			panic(caseFailure{fmt.Sprintf("%s panicked: %v", what(), r)})
		}
	}()
	f()
}

// Failure of one case.
type Failure struct {
	Index int      `json:"index"`
	Name  string   `json:"case"`
	Msg   string   `json:"message"`
	Trace []string `json:"trace,omitempty"`
}

// Result of a worker.
type Result struct {
	Cases    int64            `json:"cases"`
	Trans    int64            `json:"trans"`
	Outcomes map[string]int64 `json:"outcomes"`
	Failures []Failure        `json:"failures"`
	Done     bool             `json:"done"`
}

func runCase(c *Ctx, i int, cs *Case) (fail *Failure, cut bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(outOfTime); ok {
				cut = true
				return
			}
			cf, ok := r.(caseFailure)
			if !ok {
				// a defect of the harness itself: never a violation
				fmt.Fprintf(os.Stderr, "HARNESS PANIC in case %s: %v\n%s", cs.Name, r, debug.Stack())
				os.Exit(77)
			}
			fail = &Failure{Index: i, Name: cs.Name, Msg: cf.msg, Trace: c.trace}
		}
	}()
	c.trace = nil
	cs.Run(c)
	return nil, false
}

func genCases(id, tier string) []Case {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(77)
	}
	g := &Gen{Thorough: tier == "thorough" || p.Cheap && tier != "sweep", Deep: tier == "thorough" && p.Cheap}
	p.Gen(g)
	seen := map[string]int{}
	for i := range g.cases {
		n := g.cases[i].Name
		seen[n]++
		if seen[n] > 1 {
			g.cases[i].Name = fmt.Sprintf("%s#%d", n, seen[n])
		}
	}
	return g.cases
}

func newCtx(tmp string) *Ctx {
	return &Ctx{outcomes: map[string]int64{}, tmp: tmp, nextCompact: 1 << 22}
}

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	upto := fs.Int("upto", -1, "")
	only := fs.Int("only", -1, "")
	prog := fs.String("progress", "", "")
	out := fs.String("out", "", "")
	tmp := fs.String("tmp", "", "")
	deadline := fs.Int64("deadline", 0, "unix seconds")
	fs.Parse(args)
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	if os.Getenv("MC_PROCS") != "" {
		n, _ := strconv.Atoi(os.Getenv("MC_PROCS"))
		runtime.GOMAXPROCS(n)
	}

	if *deadline > 0 {
		endAt = time.Unix(*deadline+1, 0)
	}
	var cell *int64
	if *prog != "" {
		f, err := os.OpenFile(*prog, os.O_RDWR|os.O_CREATE, 0o600)
		must(err)
		must(f.Truncate(16))
		m, err := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		must(err)
		cell = (*int64)(unsafe.Pointer(&m[0]))
		heart = (*int64)(unsafe.Pointer(&m[8]))
	} else {
		cell = new(int64)
	}
	c := newCtx(*tmp)
	res := Result{Outcomes: c.outcomes}
	cases := genCases(*id, *tier)
	res.Done = true
	for i := range cases {
		if *only >= 0 && i != *only {
			continue
		}
		if *only < 0 && i%*of != *shard {
			continue
		}
		if *upto >= 0 && i > *upto {
			break
		}
		if *deadline > 0 && time.Now().Unix() > *deadline {
			res.Done = false
			break
		}
		atomic.StoreInt64(cell, int64(i)+1)
		c.verbose = *only >= 0
		f, cut := runCase(c, i, &cases[i])
		if cut {
			res.Done = false
			break
		}
		if f != nil {
			res.Failures = append(res.Failures, *f)
			if len(res.Failures) >= 5 {
				res.Done = false
				break
			}
			continue
		}
		res.Cases++
	}
	res.Trans = c.trans
	c.compact()
	b := make([]byte, 8*len(c.states))
	for i, s := range c.states {
		binary.LittleEndian.PutUint64(b[8*i:], s)
	}
	must(os.WriteFile(*out+".states", b, 0o600))
	j, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(*out, j, 0o600))
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
		debug.PrintStack()
		os.Exit(77)
	}
}

// ---------------------------------------------------------------- parent

// Parent orchestrates the workers of one property run.
type Parent struct {
	id, tier string
	verif    string
	tmp      string
	self     string
	cases    []Case
	deadline time.Time
	start    time.Time

	mu       sync.Mutex
	notes    []string
	viol     []violation
	known    []string
	states   []uint64
	total    Result
	extra    map[string]any
	complete bool
}

type violation struct {
	f    Failure
	kind string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 8192 {
		t.b = append([]byte{}, t.b[len(t.b)-4096:]...)
	}
	return len(p), nil
}

const hangLimit = 120 * time.Second

// spawn runs one worker to completion; crashed >= 0 names the case at which
// the process died or hung.
func (p *Parent) spawn(tag string, extra ...string) (res *Result, states []uint64, crashed int, why string) {
	out := filepath.Join(p.tmp, "out-"+tag)
	prog := filepath.Join(p.tmp, "prog-"+tag)
	os.Remove(out)
	must(os.WriteFile(prog, make([]byte, 16), 0o600))
	args := append([]string{"worker", "-prop", p.id, "-tier", p.tier, "-progress", prog, "-out", out, "-tmp", p.tmp,
		"-deadline", fmt.Sprint(p.deadline.Unix())}, extra...)
	cmd := exec.Command(p.self, args...)
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = t
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readProg := func() int64 {
		b, err := os.ReadFile(prog)
		if err != nil || len(b) < 8 {
			return 0
		}
		return int64(binary.LittleEndian.Uint64(b))
	}
	readBeat := func() int64 {
		b, err := os.ReadFile(prog)
		if err != nil || len(b) < 16 {
			return 0
		}
		return int64(binary.LittleEndian.Uint64(b[8:]))
	}
	last, lastBeat, lastT := int64(-1), int64(-1), time.Now()
	hung := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			v, h := readProg(), readBeat()
			if v != last || h != lastBeat {
				last, lastBeat, lastT = v, h, time.Now()
			} else if time.Since(lastT) > hangLimit {
				hung = true
				cmd.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 77 {
		fmt.Fprintf(os.Stderr, "harness error in worker %s:\n%s\n", tag, t.b)
		os.Exit(2)
	}
	if b, e := os.ReadFile(out); e == nil && err == nil {
		res = &Result{}
		if json.Unmarshal(b, res) == nil {
			sb, _ := os.ReadFile(out + ".states")
			for i := 0; i+8 <= len(sb); i += 8 {
				states = append(states, binary.LittleEndian.Uint64(sb[i:]))
			}
			os.Remove(out + ".states")
			return res, states, -1, ""
		}
	}
	v := readProg()
	why = fmt.Sprintf("the process ended (%v)", err)
	if hung {
		why = fmt.Sprintf("no answer within %v", hangLimit)
	}
	msg := strings.TrimSpace(string(t.b))
	if len(msg) > 600 {
		msg = msg[len(msg)-600:]
	}
	return nil, nil, int(v) - 1, why + "; last output: " + msg
}

func (p *Parent) note(f string, a ...any) {
	p.mu.Lock()
	p.notes = append(p.notes, fmt.Sprintf(f, a...))
	p.mu.Unlock()
}

func (p *Parent) name(i int) string {
	if i < 0 || i >= len(p.cases) {
		return "?"
	}
	return p.cases[i].Name
}

// confirm re-runs a failing case in fresh processes: alone, and if that does
// not fail again, after the history of its shard. One repetition suffices: the
// explorer is deterministic, so what varies is the code under test.
func (p *Parent) confirm(tag string, f Failure, shard, of int) (Failure, string, bool) {
	runs := 3
	if strings.HasPrefix(f.Msg, "no answer") {
		runs = 1 // each costs hangLimit
	}
	for r := 0; r < runs; r++ {
		res, _, crashed, why := p.spawn(fmt.Sprintf("%s-c%d", tag, r), "-only", fmt.Sprint(f.Index))
		if crashed >= 0 {
			return Failure{Index: f.Index, Name: p.name(f.Index), Msg: why, Trace: f.Trace}, "case", true
		} else if res != nil && len(res.Failures) > 0 {
			return res.Failures[0], "case", true
		}
	}
	for r := 0; r < 2; r++ {
		res, _, crashed, why := p.spawn(fmt.Sprintf("%s-h%d", tag, r), "-shard", fmt.Sprint(shard), "-of", fmt.Sprint(of), "-upto", fmt.Sprint(f.Index))
		kind := fmt.Sprintf("history shard=%d of=%d", shard, of)
		if crashed >= 0 {
			return Failure{Index: crashed, Name: p.name(crashed), Msg: why}, kind, true
		}
		if res != nil && len(res.Failures) > 0 {
			return res.Failures[0], kind, true
		}
	}
	return f, "", false
}

func (p *Parent) runShard(shard, of int) {
	tag := fmt.Sprintf("s%d", shard)
	for attempt := 0; attempt < 3; attempt++ {
		res, states, crashed, why := p.spawn(tag, "-shard", fmt.Sprint(shard), "-of", fmt.Sprint(of))
		if res != nil {
			p.mu.Lock()
			p.total.Cases += res.Cases
			p.total.Trans += res.Trans
			for k, v := range res.Outcomes {
				p.total.Outcomes[k] += v
			}
			if !res.Done {
				p.complete = false
			}
			p.states = append(p.states, states...)
			slices.Sort(p.states)
			p.states = slices.Compact(p.states)
			p.mu.Unlock()
			for i, f := range res.Failures {
				p.mu.Lock()
				enough := i >= 2 || len(p.viol) >= 5
				p.mu.Unlock()
				if enough {
					break
				}
				last, kind, ok := p.confirm(tag, f, shard, of)
				if ok {
					p.mu.Lock()
					p.viol = append(p.viol, violation{last, kind})
					p.mu.Unlock()
				} else {
					p.note("unconfirmed failure dropped: %s: %s", f.Name, f.Msg)
				}
			}
			return
		}
		if crashed >= 0 {
			f := Failure{Index: crashed, Name: p.name(crashed), Msg: why}
			last, kind, ok := p.confirm(tag, f, shard, of)
			if ok {
				p.mu.Lock()
				p.viol = append(p.viol, violation{last, kind})
				p.complete = false
				p.mu.Unlock()
				return
			}
		}
		p.note("worker %d died without a reproducible case (%s), attempt %d", shard, why, attempt)
	}
	p.complete = false
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	limit := fs.Int("limit", 0, "seconds")
	fs.Parse(args)
	lim := 600
	if *tier == "thorough" {
		lim = 3 * 3600
	}
	if *limit > 0 {
		lim = *limit
	}
	if err := ref.SelfTest(ref.OfficialList("english")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "mc-"+*id+"-")
	must(err)
	self, err := os.Executable()
	must(err)
	p := &Parent{id: *id, tier: *tier, verif: *verif, tmp: tmp, self: self, start: time.Now(), complete: true, extra: map[string]any{}}
	p.deadline = p.start.Add(time.Duration(lim) * time.Second)
	p.total.Outcomes = map[string]int64{}
	p.cases = genCases(*id, *tier)
	code := p.run()
	os.RemoveAll(tmp)
	os.Exit(code)
}

func (p *Parent) run() int {
	w := runtime.NumCPU()
	if w > len(p.cases) {
		w = len(p.cases)
	}
	var wg sync.WaitGroup
	for s := 0; s < w; s++ {
		wg.Add(1)
		go func(s int) { defer wg.Done(); p.runShard(s, w) }(s)
	}
	wg.Wait()
	if x := props[p.id].Extra; x != nil {
		x(p)
	}
	// known findings
	known := loadKnown(filepath.Join(p.verif, "known_findings.txt"), p.id)
	sort.Slice(p.viol, func(i, j int) bool { return p.viol[i].f.Index < p.viol[j].f.Index })
	code := 0
	reported := 0
	for _, v := range p.viol {
		if what, ok := known[v.f.Name]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, what)
			continue
		}
		reported++
		code = 1
		if reported > 5 {
			continue
		}
		path := p.writeReplay(v)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		fmt.Printf("  case: %s\n  what: %s\n", v.f.Name, v.f.Msg)
	}
	p.writeEvidence(reported)
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d complete=%v violations=%d wall=%.1fs\n", p.id, p.tier,
		p.total.Cases, len(p.cases), len(p.states), p.total.Trans, p.complete, reported, time.Since(p.start).Seconds())
	for _, n := range p.notes {
		fmt.Println("note:", n)
	}
	return code
}

func loadKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	// finding: property=<id> case=<case name> :: <what fails>
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+id+" case=")
		if !ok {
			continue
		}
		if name, what, ok := strings.Cut(rest, " :: "); ok {
			m[name] = what
		}
	}
	return m
}

func (p *Parent) writeReplay(v violation) string {
	dir := filepath.Join(p.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.id, p.tier, v.f.Index))
	b, _ := json.MarshalIndent(map[string]any{
		"property": p.id, "tier": p.tier, "index": v.f.Index, "case": v.f.Name, "message": v.f.Msg,
		"trace": v.f.Trace, "kind": v.kind, "replay": "/verif/check.sh replay " + path,
	}, "", " ")
	must(os.WriteFile(path, append(b, '\n'), 0o644))
	return path
}

func (p *Parent) writeEvidence(viol int) {
	var samples []any
	step := len(p.cases)/6 + 1
	for i := 0; i < len(p.cases); i += step {
		samples = append(samples, p.cases[i].Name)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": len(p.states), "transitions": p.total.Trans,
		"traces_validated_against_impl": p.total.Cases,
		"samples":                       samples,
		"exhaustive":                    p.complete && viol == 0,
		"traces_enumerated":             len(p.cases),
		"outcomes":                      p.total.Outcomes,
		"bound":                         props[p.id].Bound,
		"rule":                          "states: distinct canonical (operation, model argument, model result) hashes reached; transitions: real API calls executed and compared with the reference model; traces: complete enumerated operation traces run on the real code in agreement with the model",
	}
	for k, v := range p.extra {
		cov[k] = v
	}
	if len(p.notes) > 0 {
		cov["notes"] = p.notes
	}
	e := evidence{Property: p.id, Tier: p.tier, Seed: seed, Level: "model_checking", Coverage: cov,
		Assumptions: append([]string{
			"nothing is claimed for values outside the enumerated alphabet",
			"Go toolchain, standard library and module dependencies are trusted as installed",
		}, props[p.id].Assume...), Wall: time.Since(p.start).Seconds(), Violations: viol}
	b, err := json.MarshalIndent(e, "", " ")
	must(err)
	dir := filepath.Join(p.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	must(os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644))
}

func replayMain(args []string) {
	b, err := os.ReadFile(args[0])
	must(err)
	var r struct {
		Property, Tier, Case, Kind string
		Index                      int
	}
	must(json.Unmarshal(b, &r))
	tmp, err := os.MkdirTemp("", "mc-replay-")
	must(err)
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	p := &Parent{id: r.Property, tier: r.Tier, tmp: tmp, self: self, cases: genCases(r.Property, r.Tier), deadline: time.Now().Add(time.Hour)}
	ex := []string{"-only", fmt.Sprint(r.Index)}
	var s, o int
	if n, _ := fmt.Sscanf(r.Kind, "history shard=%d of=%d", &s, &o); n == 2 {
		ex = []string{"-shard", fmt.Sprint(s), "-of", fmt.Sprint(o), "-upto", fmt.Sprint(r.Index)}
	}
	res, _, crashed, why := p.spawn("r", ex...)
	if crashed >= 0 {
		fmt.Printf("reproduced: case %q: %s\n", p.name(crashed), why)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if res != nil && len(res.Failures) > 0 {
		for _, f := range res.Failures {
			fmt.Printf("reproduced: case %q: %s\n", f.Name, f.Msg)
			for _, t := range f.Trace {
				fmt.Println("   ", t)
			}
		}
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var subcommands = map[string]func([]string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		runMain(os.Args[2:])
	case "worker":
		workerMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	default:
		if f := subcommands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}
