package main

import (
	"aaa.test/seam"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"verif/mc/sched"
)

func init() {
	register(&Prop{ID: "C20", Gen: genC20, Extra: extraC20,
		Bound: "all unordered pairs of 37 operations x (same argument objects | different arguments), statement-level scheduling points in every package of the module and in the curve dependency; all schedules with one preemption at the first two and the last visit of every statement (either thread first), all two-preemption schedules at the first visits of the module's statements; one call overtaken at every statement by 20 calls of another thread; one-preemption schedules from process start (cold state); happens-before race analysis of every pair in both orders and at sampled preemptions; thorough: more visits, all pairs cold, three threads",
		Assume: []string{
			"preemption inside one statement is covered by the happens-before race analysis only",
			"randomness enters through crypto/rand.Reader (one stream per thread)",
		}})
	subcommands["conc"] = concMain
}

var threadStream [8]*Stream

type threadReader struct{}

func (threadReader) Read(b []byte) (int, error) {
	st := threadStream[sched.Cur()]
	if st == nil {
		panic("random source used outside a generating operation")
	}
	return st.Read(b)
}

func concInit() {
	seam.Cur = threadReader{}
	withRand = func(st *Stream, f func()) {
		t := sched.Cur()
		threadStream[t] = st
		f()
	}
}

// concRun runs ops (one per thread) under a plan and returns their results.
func concRun(ops []func() Res, first int, plan []sched.Switch, rec bool) ([]string, sched.Result) {
	out := make([]string, len(ops))
	var th []func()
	for i, o := range ops {
		i, o := i, o
		th = append(th, func() {
			defer func() {
				if r := recover(); r != nil {
					out[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			out[i] = o().desc
		})
	}
	r := sched.Run(th, first, plan, rec)
	return out, r
}

// concReq is a batch of schedules of one set of operations, run in one
// process (which must be fresh when Cold is meant).
type concReq struct {
	Steps []int // history steps: operation*nv+variant (0 or 1), one per thread
	First []int
	Plans [][]sched.Switch
	Want  []string
	Rep   int // calls made by every thread but the first (0: one)
}

type concOut struct {
	Got    []string
	Log    [][]int32
	Viol   string
	Ran    int
	Taken  int
	Stuck  int
	Cold   bool
	Points int
}

func stepOps(steps []int, ws []*World, rep int) []func() Res {
	ops := histOps()
	var out []func() Res
	for t, s := range steps {
		t, s := t, s
		out = append(out, func() Res {
			r := ops[s/nv].run(ws[s%nv])
			for i := 1; t > 0 && i < rep; i++ {
				if q := ops[s/nv].run(ws[s%nv]); q.desc != r.desc {
					q.desc = fmt.Sprintf("call %d: %s", i+1, q.desc)
					return q
				}
			}
			return r
		})
	}
	return out
}

func concMain([]string) {
	var q concReq
	must(json.NewDecoder(os.Stdin).Decode(&q))
	debug.SetMaxStack(64 << 20)
	out := os.NewFile(3, "out")
	runtime.GOMAXPROCS(2)
	concInit()
	o := concBatch(q)
	must(json.NewEncoder(out).Encode(o))
	os.Exit(0)
}

func concBatch(q concReq) (o concOut) {
	ws := []*World{newWorld(0), newWorld(1)}
	snaps := []string{ws[0].snap(), ws[1].snap()}
	ops := stepOps(q.Steps, ws, q.Rep)
	if q.Want == nil { // solo: record
		got, r := concRun(ops, 0, nil, true)
		if r.Deadlock || r.Hang {
			o.Viol = fmt.Sprintf("[%s] does not end", seqName(q.Steps))
		}
		o.Got, o.Log = got, r.Log
		return
	}
	for i, plan := range q.Plans {
		got, r := concRun(ops, q.First[i], plan, false)
		o.Ran++
		o.Taken += r.Taken
		if r.Stuck {
			o.Stuck++
		}
		what := fmt.Sprintf("threads [%s], thread %d first, switches %v", seqName(q.Steps), q.First[i], plan)
		if q.Rep > 1 {
			what += fmt.Sprintf(", the last thread calling %d times", q.Rep)
		}
		if r.Deadlock {
			o.Viol = what + ": deadlock, every thread waits for a lock"
			return
		}
		if r.Hang {
			o.Viol = what + ": the threads block forever"
			return
		}
		for t := range got {
			if got[t] != q.Want[t] {
				o.Viol = fmt.Sprintf("%s: thread %d returned %s; alone it returns %s", what, t, got[t], q.Want[t])
				return
			}
		}
		for v := range ws {
			if s := ws[v].snap(); s != snaps[v] {
				o.Viol = what + ": an argument changed: " + diff(snaps[v], s)
				return
			}
		}
		if r.Stuck { // a lock of the code's own making: do not wait for each schedule
			return
		}
	}
	return
}

// conc runs a batch in a fresh process of the given binary.
func (c *Ctx) conc(bin string, q concReq, race bool) concOut {
	c.inTime()
	in, err := json.Marshal(q)
	must(err)
	r, w, err := os.Pipe()
	must(err)
	cmd := exec.Command(bin, "conc")
	cmd.Stdin = bytes.NewReader(in)
	t := &tail{}
	cmd.Stderr, cmd.Stdout = t, t
	cmd.ExtraFiles = []*os.File{w}
	if race {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	w.Close()
	var o concOut
	derr := json.NewDecoder(r).Decode(&o)
	r.Close()
	err = cmd.Wait()
	beat()
	if derr != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() == 77 {
				fmt.Fprintf(os.Stderr, "%s\n", t.b)
				os.Exit(77)
			}
			if race && ee.ExitCode() == 66 {
				s := string(t.b)
				if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
					s = s[i:]
				}
				if len(s) > 1800 {
					s = s[:1800]
				}
				c.Failf("threads [%s]: data race:\n%s", seqName(q.Steps), s)
			}
		}
		c.Failf("threads [%s]: the process ended: %v: %s", seqName(q.Steps), err, t.b)
	}
	if o.Viol != "" {
		c.Failf("%s", o.Viol)
	}
	return o
}

// cands picks preemption points: the first visits and the last of each
// statement.
func cands(log []int32, visits int, moduleOnly bool) []int {
	last := map[int32]int{}
	for i, l := range log {
		last[l] = i
	}
	n := map[int32]int{}
	var out []int
	for i, l := range log {
		n[l]++
		if moduleOnly && l >= 5000000 {
			continue
		}
		if n[l] <= visits || (last[l] == i && !moduleOnly) {
			out = append(out, i+1)
		}
	}
	return out
}

type soloInfo struct {
	desc string
	log  []int32
}

var soloCache = map[int]soloInfo{}

// solo runs a step alone in a fresh process.
func (c *Ctx) solo(s int) soloInfo {
	if x, ok := soloCache[s]; ok {
		return x
	}
	self, err := os.Executable()
	must(err)
	o := c.conc(self, concReq{Steps: []int{s}}, false)
	x := soloInfo{o.Got[0], o.Log[0]}
	soloCache[s] = x
	return x
}

func onePreemption(la, lb []int32, visits int) (first []int, plans [][]sched.Switch) {
	first = append(first, 0, 1)
	plans = append(plans, nil, nil)
	for _, s := range cands(la, visits, false) {
		first = append(first, 0)
		plans = append(plans, []sched.Switch{{T: 0, Step: s, To: 1}})
	}
	for _, s := range cands(lb, visits, false) {
		first = append(first, 1)
		plans = append(plans, []sched.Switch{{T: 1, Step: s, To: 0}})
	}
	return
}

func twoPreemptions(la, lb []int32, max int) (first []int, plans [][]sched.Switch) {
	a, b := cands(la, 1, true), cands(lb, 1, true)
	for _, x := range a {
		for _, y := range b {
			first = append(first, 0, 1)
			plans = append(plans,
				[]sched.Switch{{T: 0, Step: x, To: 1}, {T: 1, Step: y, To: 0}},
				[]sched.Switch{{T: 1, Step: y, To: 0}, {T: 0, Step: x, To: 1}})
			if len(plans) >= max {
				return
			}
		}
	}
	return
}

func genC20(g *Gen) {
	ops := histOps()
	n := len(ops)
	slow := func(i int) bool { return ops[i].name == "Pub" }
	seed := func(i int) bool { return ops[i].name == "Seed" }
	self, err := os.Executable()
	must(err)
	race := os.Getenv("MC_RACE_BIN")
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			i, j := i, j
			for v := 0; v < 2; v++ {
				v := v
				steps := []int{nv * i, nv*j + v}
				name := fmt.Sprintf("%s|%s", ops[i].name, ops[j].name)
				if v == 1 {
					name += "/other args"
				}
				g.Add("one/"+name, func(c *Ctx) {
					a, b := c.solo(steps[0]), c.solo(steps[1])
					vis := g.T(2, 6)
					if slow(i) || slow(j) {
						vis = g.T(1, 2)
					}
					f, p := onePreemption(a.log, b.log, vis)
					c.concPlans(self, steps, f, p, []string{a.desc, b.desc})
					c.Outcome("pairs")
				})
				if !(slow(i) || slow(j)) || g.Thorough {
					g.Add("two/"+name, func(c *Ctx) {
						a, b := c.solo(steps[0]), c.solo(steps[1])
						max := g.T(3000, 40000)
						if seed(i) || seed(j) || slow(i) || slow(j) {
							max = g.T(400, 4000)
						}
						f, p := twoPreemptions(a.log, b.log, max)
						if len(p) >= max {
							c.Outcome("pairs with truncated two-preemption set")
						}
						c.concPlans(self, steps, f, p, []string{a.desc, b.desc})
					})
				}
				if i == j || g.Thorough {
					g.Add("cold/"+name, func(c *Ctx) {
						a, b := c.solo(steps[0]), c.solo(steps[1])
						f, p := onePreemption(a.log, b.log, 1)
						for k := range p {
							if k >= 2 && (slow(i) || g.Thorough && i != j) && k%5 != 0 {
								continue
							}
							c.concPlans(self, steps, f[k:k+1], p[k:k+1], []string{a.desc, b.desc})
							c.Outcome("cold schedules")
						}
					})
				}
				if race != "" {
					g.Add("race/"+name, func(c *Ctx) {
						a, b := c.solo(steps[0]), c.solo(steps[1])
						f, p := onePreemption(a.log, b.log, 1)
						// both orders, then preemptions spread over the run
						k := g.T(8, 40)
						if slow(i) || slow(j) {
							k = g.T(2, 8)
						}
						var f2 []int
						var p2 [][]sched.Switch
						for x := range p {
							if x < 2 || k >= len(p) || x%(len(p)/k+1) == 0 {
								f2, p2 = append(f2, f[x]), append(p2, p[x])
							}
						}
						o := c.conc(race, concReq{Steps: steps, First: f2, Plans: p2, Want: []string{a.desc, b.desc}}, true)
						c.trans += int64(o.Ran) * 2
						c.outcomes["race-analysed executions"] += int64(o.Ran)
						// the other thread first in a cold process
						o = c.conc(race, concReq{Steps: steps, First: []int{1}, Plans: [][]sched.Switch{nil}, Want: []string{a.desc, b.desc}}, true)
						c.outcomes["race-analysed executions"] += int64(o.Ran)
						c.State("race", fmt.Sprint(steps))
					})
				}
			}
		}
	}
	// one call, overtaken by many of another thread (rings, pools, slots)
	for i := 0; i < n; i++ {
		for v := 0; v < 2; v++ {
			i, v := i, v
			rep := g.T(20, 70)
			if slow(i) || seed(i) {
				rep = g.T(5, 20)
			}
			g.Add(fmt.Sprintf("overtaken/%s/%d", ops[i].name, v), func(c *Ctx) {
				steps := []int{nv * i, nv*i + v}
				a, b := c.solo(steps[0]), c.solo(steps[1])
				f, p := []int{1}, [][]sched.Switch{nil}
				cs := cands(a.log, 1, false)
				if m := cands(a.log, 1, true); slow(i) || seed(i) {
					cs = m
				}
				for _, x := range cs {
					f = append(f, 0)
					p = append(p, []sched.Switch{{T: 0, Step: x, To: 1}})
				}
				want := []string{a.desc, b.desc}
				for lo := 0; lo < len(p); lo += 200 {
					hi := min(lo+200, len(p))
					o := c.conc(self, concReq{Steps: steps, First: f[lo:hi], Plans: p[lo:hi], Want: want, Rep: rep}, false)
					c.trans += int64(o.Ran * (rep + 1))
					c.outcomes["schedules"] += int64(o.Ran)
					c.outcomes["preemptions taken"] += int64(o.Taken)
					if o.Stuck > 0 {
						c.outcomes["executions completed outside the scheduler"] += int64(o.Stuck)
					}
					for k := lo; k < hi; k++ {
						c.State("overtaken", fmt.Sprint(steps, f[k], p[k]))
					}
				}
				if race != "" {
					o := c.conc(race, concReq{Steps: steps, First: []int{0}, Plans: [][]sched.Switch{nil}, Want: want, Rep: rep}, true)
					c.outcomes["race-analysed executions"] += int64(o.Ran)
				}
			})
		}
	}
	if g.Thorough {
		for i := 0; i < n; i++ {
			i := i
			if slow(i) || seed(i) {
				continue
			}
			g.Add("three/"+ops[i].name, func(c *Ctx) {
				for j := 0; j < n; j++ {
					if slow(j) || seed(j) {
						continue
					}
					steps := []int{nv * i, nv*i + 1, nv * j}
					a, b, d := c.solo(steps[0]), c.solo(steps[1]), c.solo(steps[2])
					var f []int
					var p [][]sched.Switch
					for _, x := range cands(a.log, 1, true) {
						for _, y := range cands(b.log, 1, true) {
							f = append(f, 0)
							p = append(p, []sched.Switch{{T: 0, Step: x, To: 1}, {T: 1, Step: y, To: 2}})
							if len(p) > 2500 {
								break
							}
						}
					}
					c.concPlans(self, steps, f, p, []string{a.desc, b.desc, d.desc})
				}
			})
		}
	}
}

// concPlans runs the plans in fresh processes, a limited number per process.
func (c *Ctx) concPlans(bin string, steps, first []int, plans [][]sched.Switch, want []string) {
	for lo := 0; lo < len(plans); lo += 1000 {
		hi := min(lo+1000, len(plans))
		o := c.conc(bin, concReq{Steps: steps, First: first[lo:hi], Plans: plans[lo:hi], Want: want}, false)
		c.trans += int64(o.Ran * len(steps))
		c.outcomes["schedules"] += int64(o.Ran)
		c.outcomes["preemptions taken"] += int64(o.Taken)
		if o.Stuck > 0 {
			c.outcomes["executions completed outside the scheduler"] += int64(o.Stuck)
			return
		}
		for k := lo; k < hi; k++ {
			c.State("sched", fmt.Sprint(steps, first[k], plans[k]))
		}
	}
}

func extraC20(p *Parent) {
	p.extra["schedules"] = p.total.Outcomes["schedules"]
	p.extra["preemptions_taken"] = p.total.Outcomes["preemptions taken"]
	p.extra["race_analysed_executions"] = p.total.Outcomes["race-analysed executions"]
	p.extra["instrumented"] = os.Getenv("MC_INSTR") == "1"
	if os.Getenv("MC_INSTR") != "1" {
		p.complete = false
		p.note("the module could not be instrumented (%s): only whole-call orders and race analysis were explored", os.Getenv("MC_INSTR_WHY"))
	}
	if os.Getenv("MC_RACE_BIN") == "" {
		p.complete = false
		p.note("no race build")
	}
	if p.total.Outcomes["executions completed outside the scheduler"] > 0 {
		p.complete = false
	}
}
