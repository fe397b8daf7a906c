package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/pt"
)

// A cooperative scheduler: the threads of a case run one at a time and stop at every
// scheduling point; all schedules with a bounded number of preemptions are run.

type thr struct {
	id     int
	resume chan bool
	state  int // 0 parked, 1 running, 2 finished
	at     string
	points int
}

type sevent struct {
	t    *thr
	what string
	done bool
}

type sched struct {
	ths      []*thr
	ev       chan sevent
	script   []int
	Steps    []sstep
	cur      int
	hung     string
	patience time.Duration
}

type sstep struct {
	enabled []int
	chosen  int
	cur     int // the thread that ran before (-1: none)
}

func newSched(script []int) *sched {
	return &sched{ev: make(chan sevent, 64), script: script, cur: -1, patience: hungAfter}
}

// yield is called by thread id at a scheduling point.
func (s *sched) yield(t *thr, what string) {
	s.ev <- sevent{t, what, false}
	<-t.resume
}

// end tells that a thread has no more points.
func (s *sched) end(t *thr) { s.ev <- sevent{t, "end", true} }

// siteHook turns the points that instr adds to the library into scheduling points.
func siteHook() {
	pt.F = func(site int) {
		what := "site " + itoa(site)
		strayCtx(what)
		point(what)
	}
}

// sparse passes on points; every place in the library counts twice per thread.
func sparse(f func(what string)) func(what string) {
	seen := map[string]int{}
	return func(what string) {
		if strings.HasPrefix(what, "site ") {
			if seen[what]++; seen[what] > 2 {
				return
			}
		}
		f(what)
	}
}

func newThr() *thr { return &thr{id: -1, resume: make(chan bool, 1), at: "start"} }

// spawn starts a thread; it stops before its first instruction.
func (s *sched) spawn(f func(t *thr)) {
	t := newThr()
	t.id = len(s.ths)
	s.ths = append(s.ths, t)
	go func() {
		<-t.resume
		f(t)
		s.end(t)
	}()
}

func (s *sched) enabled() (out []int) {
	for i, t := range s.ths {
		if t.state == 0 {
			out = append(out, i)
		}
	}
	return
}

func (s *sched) take(e sevent) {
	t := e.t
	if t.id < 0 { // a thread started by the library
		t.id = len(s.ths)
		s.ths = append(s.ths, t)
	}
	t.at = e.what
	t.points++
	if e.done {
		t.state = 2
	} else {
		t.state = 0
	}
}

const (
	blockedAfter = 400 * time.Millisecond
	hungAfter    = 20 * time.Second
)

// run drives the threads to their ends along the script, then without preemption.
func (s *sched) run() {
	for {
		// late events of threads that were thought to be blocked
		for more := true; more; {
			select {
			case e := <-s.ev:
				s.take(e)
			default:
				more = false
			}
		}
		en := s.enabled()
		if len(en) == 0 {
			running := false
			for _, t := range s.ths {
				running = running || t.state == 1
			}
			if !running {
				return
			}
			select {
			case e := <-s.ev:
				s.take(e)
			case <-time.After(s.patience):
				s.hung = "no thread gets any further:"
				for i, t := range s.ths {
					if t.state == 1 {
						s.hung += fmt.Sprintf(" thread %d after %s;", i, t.at)
					}
				}
				return
			}
			continue
		}
		c := en[0]
		for _, i := range en {
			if i == s.cur {
				c = i
			}
		}
		if n := len(s.Steps); n < len(s.script) {
			for _, i := range en {
				if i == s.script[n] {
					c = i
				}
			}
		}
		s.Steps = append(s.Steps, sstep{en, c, s.cur})
		s.cur = c
		s.ths[c].state = 1
		s.ths[c].resume <- true
		for s.ths[c].state == 1 {
			select {
			case e := <-s.ev:
				s.take(e)
			case <-time.After(blockedAfter):
				goto next // blocked on something another thread holds
			}
		}
	next:
	}
}

func chosen(st []sstep) []int {
	var out []int
	for _, x := range st {
		out = append(out, x.chosen)
	}
	return out
}

func isIn(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// allSchedules runs one(script) for every schedule with at most bound preemptions.
// one returns the steps taken and what went wrong.
func allSchedules(bound, max int, one func(script []int) ([]sstep, string)) (schedules, steps int, script []int, fail string, capped bool) {
	type item struct{ pre []int }
	stack := []item{{nil}}
	for len(stack) > 0 {
		if max > 0 && schedules >= max {
			return schedules, steps, nil, "", true
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		st, bad := one(it.pre)
		schedules++
		steps += len(st)
		if bad != "" {
			return schedules, steps, chosen(st), bad, false
		}
		cost := 0
		for i, x := range st {
			if i >= len(it.pre) {
				for _, alt := range x.enabled {
					if alt == x.chosen {
						continue
					}
					c := cost
					if x.cur >= 0 && isIn(x.cur, x.enabled) && alt != x.cur {
						c++
					}
					if c > bound {
						continue
					}
					pre := append(append([]int{}, chosen(st[:i])...), alt)
					stack = append(stack, item{pre})
				}
			}
			if x.cur >= 0 && x.chosen != x.cur && isIn(x.cur, x.enabled) {
				cost++
			}
		}
	}
	return schedules, steps, nil, "", false
}
