//go:build go1.23

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/dmitryikh/leaves/zzverif/vsched"
)

// degraded is set at build time when the sources could not be rewritten to run under the controlled scheduler
var degraded string

type choice struct {
	n, k int
	hi   int // behind the last variant that may be taken
	left int // deviations left before the step
	key  uint64
}

// exploration enumerates the schedules of a body by depth-first replay. Two prefixes with the same happens-before
// graph are the same state, so only one of them is continued
type exploration struct {
	c       *C
	visited map[uint64]int // state (with the last goroutine if deviations are bounded) -> deviations left when it was seen
	stack   []choice
	bound   int // of deviations, -1: none
	done    bool
	runs    int
	trans   int
	full    int // runs to the end
	nondet  bool
	capped  bool
	stuck   *bool // a deadlock is an outcome
	given   []int // the schedule to begin with
}

func newExploration(c *C, bound int) *exploration {
	return &exploration{c: c, bound: bound, visited: map[uint64]int{}}
}

// next gives the first variant from k on that may be taken with left deviations
func (e *exploration) next(k, n, left int) int {
	if e.bound >= 0 {
		for k < n && vsched.Cost(k) > left {
			k++
		}
	}
	return k
}

// run goes on until every schedule was seen, or maxRuns runs were made, or the time is up
func (e *exploration) run(maxRuns int, until time.Time, what string, root func(), verdict func() string) {
	c := e.c
	for !e.done {
		if e.runs >= maxRuns || time.Now().After(until) {
			return
		}
		depth, left := 0, e.bound
		races := vsched.RaceErrors()
		broken := false
		c.Stage(what)
		res := vsched.Run(root, func(n int, key uint64) int {
			if depth < len(e.stack) {
				f := &e.stack[depth]
				if f.n != n || f.key != key {
					e.nondet = true
					broken = true
					return -1
				}
				depth++
				if depth == len(e.stack) { // the step to be changed
					f.k = e.next(f.k, n, left)
				}
				if e.bound >= 0 {
					left = f.left - vsched.Cost(f.k)
				}
				return f.k
			}
			id := key
			if e.bound >= 0 {
				id += vsched.LastKey() * 0x9e3779b97f4a7c15
			}
			if l, ok := e.visited[id]; ok && l >= left {
				return -1
			}
			e.visited[id] = left
			k := e.next(0, n, left)
			if k >= n {
				k = 0
			}
			if depth < len(e.given) && e.given[depth] < n {
				k = e.given[depth]
			}
			hi := n
			for e.bound >= 0 && vsched.Cost(hi-1) > left && hi > k+1 {
				hi--
			}
			e.stack = append(e.stack, choice{n, k, hi, left, key})
			if e.bound >= 0 {
				left -= vsched.Cost(k)
			}
			depth++
			e.trans++
			return k
		})
		e.runs++
		c.Evals(1)
		c.choices = func() []int {
			var r []int
			for _, s := range e.stack {
				r = append(r, s.k)
			}
			return r
		}
		if vsched.RaceErrors() > races {
			c.Failf("%s: data race under schedule %s\n%s", what, vsched.Schedule(), raceLog())
		}
		switch {
		case res.Panic != "":
			c.Failf("%s: panic under schedule %s\n%s", what, vsched.Schedule(), res.Panic)
		case res.Overflow:
			e.capped = true
		case res.Deadlock && e.stuck != nil:
			*e.stuck = true
		case res.Deadlock:
			c.Failf("%s: the calls never return: %s(schedule %s)", what, res.Blocked, vsched.Schedule())
		case res.Leak > 0:
			c.Failf("%s: goroutines never end: %s(schedule %s)", what, res.Blocked, vsched.Schedule())
		case !res.Aborted:
			e.full++
			if msg := verdict(); msg != "" {
				c.Failf("%s: %s under schedule %s", what, msg, vsched.Schedule())
			}
		}
		if broken { // the code remembers something from run to run: the tree of schedules cannot be followed
			e.capped = true
			e.stack = e.stack[:depth]
		}
		if degraded != "" {
			e.stack = nil
			e.visited = map[uint64]int{}
			continue
		}
		for len(e.stack) > 0 && e.stack[len(e.stack)-1].k+1 >= e.stack[len(e.stack)-1].hi {
			e.stack = e.stack[:len(e.stack)-1]
		}
		if len(e.stack) == 0 {
			e.done = true
			return
		}
		e.stack[len(e.stack)-1].k++
		e.trans++
	}
}

// fewRuns is the number of runs after which the schedules with few deviations are taken first
const fewRuns = 3000

// explore runs root under every schedule. root is called for every schedule anew; verdict is asked after each schedule
// that ran to its end. If there are many schedules, those with 0, 1, 2, 3 deviations come before the rest
func explore(c *C, maxRuns int, what string, root func(), verdict func() string) *exploration {
	until := c.x.caseEnd()
	replay(c, what, root, verdict)
	all := newExploration(c, -1)
	if degraded != "" {
		all.run(20, until, what, root, verdict)
		all.capped = true
	} else {
		now := time.Now()
		all.run(fewRuns, now.Add(until.Sub(now)/3), what, root, verdict)
		most := 3
		if c.focus {
			most = 6
			maxRuns = 1 << 40
		}
		kept, _ := c.Kept().(*exploration)
		for d := c.Reached(); d <= most && !all.done; d++ {
			e := newExploration(c, d)
			if kept != nil && kept.bound == d { // goes on where the first pass stopped
				e, kept.c = kept, c
			}
			before := e.runs
			e.run(maxRuns/4, until, fmt.Sprintf("%s, at most %d deviations", what, d), root, verdict)
			c.Evals(0)
			c.Extra("schedules_replayed", e.runs-before)
			if !e.done && e.runs < maxRuns/4 && c.focus {
				c.Keep(e)
			}
			if e.done && !e.capped {
				c.Reach(d + 1)
				c.Extra(fmt.Sprintf("explorations_complete_up_to_%d_deviations", d), 1)
			} else {
				break
			}
		}
		all.run(maxRuns, until, what, root, verdict)
	}
	if !all.done && all.runs < maxRuns && degraded == "" && c.Again() {
		return all
	}
	c.States(len(all.visited))
	c.Trans(all.trans)
	c.Traces(all.full)
	c.Extra("schedules_replayed", all.runs)
	c.Extra("schedules_to_the_end", all.full)
	if all.nondet {
		c.Extra("explorations_with_state_across_runs", 1)
	}
	if all.capped || !all.done {
		c.Extra("explorations_cut_short", 1)
		c.x.cut = true
	}
	return all
}

// exploreNear runs root under every schedule with at most dmax deviations from the schedule that goes on with the
// running goroutine as long as it can and with the oldest one else
func exploreNear(c *C, dmax int, what string, root func(), verdict func() string) {
	until := c.x.caseEnd()
	replay(c, what, root, verdict)
	if degraded != "" {
		e := newExploration(c, -1)
		e.run(10, until, what, root, verdict)
		c.Extra("explorations_cut_short", 1)
		c.x.cut = true
		return
	}
	vsched.Strict = true
	defer func() { vsched.Strict = false }()
	for d := 0; d <= dmax; d++ {
		e := newExploration(c, d)
		e.run(1<<40, until, fmt.Sprintf("%s, at most %d deviations", what, d), root, verdict)
		if !e.done && c.Again() {
			return
		}
		c.Extra("schedules_replayed", e.runs)
		c.Extra("schedules_to_the_end", e.full)
		if e.nondet {
			c.Extra("explorations_with_state_across_runs", 1)
		}
		if !e.done || e.capped {
			c.Extra("explorations_cut_short", 1)
			c.x.cut = true
			return
		}
		if d == dmax {
			c.States(len(e.visited))
			c.Trans(e.trans)
			c.Traces(e.full)
			c.Extra(fmt.Sprintf("bounded_explorations_complete_up_to_%d_deviations", d), 1)
		}
	}
}

// replay takes the schedule of a violation that is to be confirmed
func replay(c *C, what string, root func(), verdict func() string) {
	ks := givenSchedule()
	if degraded != "" || len(ks) == 0 {
		return
	}
	e := newExploration(c, -1)
	e.given = ks
	e.run(1, c.x.deadline, what, root, verdict)
}

// raceLog is what the race detector printed
func raceLog() string {
	b, err := os.ReadFile(filepath.Join(workDir, "log"))
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

var word [8]byte
var nword int

//go:norace
func letter(s byte) {
	word[nword] = s
	nword++
}

// selfTest shows that the explorer finds every outcome of programs whose outcomes are known
func selfTest(c *C) {
	out := map[string]bool{}
	var got string
	run := func(name string, want int, root func()) {
		out = map[string]bool{}
		if degraded != "" {
			return
		}
		e := newExploration(c, -1)
		e.run(100000, c.x.deadline, name, root, func() string { out[got] = true; return "" })
		if e.done && len(out) != want {
			c.Failf("self test %s: %d outcomes instead of %d: %v", name, len(out), want, out)
		}
	}
	// schedules with few deviations: two goroutines that write two letters each
	for d, want := range []int{2, 4, 6, 6} {
		if degraded != "" {
			break
		}
		out = map[string]bool{}
		e := newExploration(c, d)
		e.run(100000, c.x.deadline, "bounded", func() {
			nword = 0
			var lock vsched.Obj
			done := vsched.NewChan[int](2)
			for _, s := range []byte("ab") {
				s := s
				vsched.Go(func() {
					for i := 0; i < 2; i++ {
						lock.Atomic(2)
						letter(s)
					}
					done.Send(1)
				})
			}
			done.Recv()
			done.Recv()
		}, func() string { out[string(word[:nword])] = true; return "" })
		if e.done && len(out) != want {
			c.Failf("self test: %d deviations give %d outcomes instead of %d: %v", d, len(out), want, out)
		}
	}
	run("three senders to one channel", 6, func() {
		ch := vsched.NewChan[string](0)
		for _, s := range []string{"a", "b", "c"} {
			s := s
			vsched.Go(func() { ch.Send(s) })
		}
		r := ch.Recv()
		r += ch.Recv()
		got = r + ch.Recv()
	})
	run("buffered channel, two producers of two", 6, func() {
		ch := vsched.NewChan[string](2)
		for _, s := range []string{"a", "b"} {
			s := s
			vsched.Go(func() { ch.Send(s + "1"); ch.Send(s + "2") })
		}
		got = ""
		for i := 0; i < 4; i++ {
			got += ch.Recv()
		}
	})
	run("select between two senders and default", 5, func() {
		a, b := vsched.NewChan[string](0), vsched.NewChan[string](0)
		vsched.Go(func() { vsched.Select(true, vsched.NewSendCase(a, "a")) })
		vsched.Go(func() { vsched.Select(true, vsched.NewSendCase(b, "b")) })
		got = ""
		for i := 0; i < 2; i++ {
			ca, cb := vsched.NewRecvCase(a), vsched.NewRecvCase(b)
			switch vsched.Select(true, ca, cb) {
			case 0:
				got += ca.Val()
			case 1:
				got += cb.Val()
			}
		}
	})
	// a reader that reads again while a writer waits is stuck; a reader that reads again after it has let go isn't
	for _, nested := range []bool{true, false} {
		if degraded != "" {
			break
		}
		e := newExploration(c, -1)
		stuck := false
		e.stuck = &stuck
		e.run(10000, c.x.deadline, "nested readers", func() {
			var l vsched.Obj
			done := vsched.NewChan[int](2)
			vsched.Go(func() {
				l.RLock()
				if !nested {
					l.RUnlock()
				}
				l.RLock()
				l.RUnlock()
				if nested {
					l.RUnlock()
				}
				done.Send(1)
			})
			vsched.Go(func() { l.Lock(); l.Unlock(); done.Send(1) })
			done.Recv()
			done.Recv()
		}, func() string { return "" })
		if stuck != nested {
			c.Failf("self test: a writer between two readers, nested %v: deadlock %v", nested, stuck)
		}
	}
	run("queue of 4 tasks to 2 workers", 16, func() {
		ch := vsched.NewChan[int](0)
		done := vsched.NewChan[int](0)
		var who [4]int
		for w := 1; w <= 2; w++ {
			w := w
			vsched.Go(func() {
				for i, ok := ch.Recv2(); ok; i, ok = ch.Recv2() {
					who[i] = w
				}
				done.Send(w)
			})
		}
		for i := 0; i < 4; i++ {
			ch.Send(i)
		}
		ch.Close()
		done.Recv()
		done.Recv()
		got = fmt.Sprint(who)
	})
}
