// Package sched is a cooperative scheduler for code instrumented by
// verif/mc/instr: exactly one thread runs at a time and control changes hands
// only where the explored plan says so. The hand-over deliberately creates no
// happens-before edge visible to the race detector (plain memory in norace
// functions), so that a race build reports every pair of conflicting accesses
// that only the scheduler, and not the code under test, keeps apart.
package sched

import (
	"runtime"
	"sync"
	"time"
)

// Switch hands control from thread T to thread To once T has reached Step.
type Switch struct{ T, Step, To int }

// Exec is one execution.
type exec struct {
	n       int
	cur     int
	steps   []int
	done    []bool
	blocked []bool
	plan    []Switch
	pos     int
	log     [][]int32
	rec     bool
	free    bool
	dead    bool
	taken   int
}

var ex *exec

const maxLog = 1 << 20

// Y is a scheduling point before a statement.
//
//go:norace
func Y(id int32) {
	e := ex
	if e == nil || e.free {
		return
	}
	t := e.cur
	e.steps[t]++
	if e.rec && len(e.log[t]) < maxLog {
		e.log[t] = append(e.log[t], id)
	}
	if e.pos < len(e.plan) {
		p := &e.plan[e.pos]
		if p.T == t && e.steps[t] >= p.Step {
			e.pos++
			if !e.done[p.To] && !e.blocked[p.To] && p.To != t {
				e.taken++
				e.cur = p.To
				wait(e, t)
			}
		}
	}
}

//go:norace
func wait(e *exec, t int) {
	for e.cur != t && !e.free {
		runtime.Gosched()
	}
}

// Cur is the running thread (0 outside an execution).
//
//go:norace
func Cur() int {
	if ex == nil {
		return 0
	}
	return ex.cur
}

// Block is called by a lock that is taken; it returns when the caller should
// try again, or false when it has to block for real.
//
//go:norace
func Block() bool {
	e := ex
	if e == nil || e.free {
		return false
	}
	t := e.cur
	e.blocked[t] = true
	for i := 0; i < e.n; i++ {
		if !e.done[i] && !e.blocked[i] {
			e.cur = i
			wait(e, t)
			return !e.free
		}
	}
	e.dead = true
	for !e.free {
		runtime.Gosched()
	}
	return false
}

// Released is called when a lock is given up.
//
//go:norace
func Released() {
	if e := ex; e != nil {
		for i := range e.blocked {
			e.blocked[i] = false
		}
	}
}

//go:norace
func finish(e *exec, t int) {
	e.done[t] = true
	for i := range e.blocked {
		e.blocked[i] = false
	}
	// a planned switch of a finished thread never happens
	for e.pos < len(e.plan) && e.plan[e.pos].T == t {
		e.pos++
	}
	for i := 0; i < e.n; i++ {
		if !e.done[i] {
			e.cur = i
			return
		}
	}
}

//go:norace
func isDead(e *exec) bool { return e.dead }

//go:norace
func setFree(e *exec) { e.free = true }

//go:norace
func setEx(e *exec) { ex = e }

// Result of an execution.
type Result struct {
	Deadlock bool // every unfinished thread waits for a lock
	Hang     bool // no end although all threads may run
	Stuck    bool // a thread blocked outside the scheduler's knowledge; completed freely
	Steps    []int
	Log      [][]int32
	Taken    int // switches that took place
}

// Run executes the threads under the plan; thread first starts.
func Run(threads []func(), first int, plan []Switch, rec bool) Result {
	n := len(threads)
	e := &exec{n: n, cur: first, steps: make([]int, n), done: make([]bool, n), blocked: make([]bool, n), plan: plan, rec: rec, log: make([][]int32, n)}
	setEx(e)
	var wg sync.WaitGroup
	for t := range threads {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			wait(e, t)
			threads[t]()
			finish(e, t)
		}(t)
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	var r Result
	limit := time.NewTimer(10 * time.Second)
	tick := time.NewTicker(100 * time.Millisecond)
	defer limit.Stop()
	defer tick.Stop()
loop:
	for {
		select {
		case <-fin:
			break loop
		case <-tick.C:
			if isDead(e) {
				r.Deadlock = true
				setEx(nil)
				return r
			}
		case <-limit.C:
			setFree(e)
			select {
			case <-fin:
				r.Stuck = true
			case <-time.After(30 * time.Second):
				r.Hang = true
				setEx(nil)
				return r
			}
			break loop
		}
	}
	setEx(nil)
	r.Steps, r.Log, r.Taken = e.steps, e.log, e.taken
	return r
}
