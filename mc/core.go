package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func itoa(i int) string { return strconv.Itoa(i) }

// ---------------------------------------------------------------- watchdog

var opTimes sync.Map // gid -> *int64 (unix nanos of the running operation, 0 if none)

func opSlot() *int64 {
	id := gid()
	if v, ok := opTimes.Load(id); ok {
		return v.(*int64)
	}
	p := new(int64)
	opTimes.Store(id, p)
	return p
}
func opStart() { atomic.StoreInt64(opSlot(), time.Now().UnixNano()) }
func opEnd()   { atomic.StoreInt64(opSlot(), 0) }

// longestOp returns how long the longest running library operation has taken.
func longestOp() time.Duration {
	now := time.Now().UnixNano()
	var m int64
	opTimes.Range(func(_, v interface{}) bool {
		if t := atomic.LoadInt64(v.(*int64)); t != 0 && now-t > m {
			m = now - t
		}
		return true
	})
	return time.Duration(m)
}

// ---------------------------------------------------------------- context

// Violation is a failing case that can be executed again.
type Violation struct {
	Scenario string   `json:"scenario"`
	Case     string   `json:"case"`
	Path     []string `json:"path,omitempty"`
	Text     string   `json:"text"`
	redo     func() string
}

type Ctx struct {
	ID       string
	Thorough bool
	Seed     int64
	Workers  int
	Deadline time.Time
	Start    time.Time

	// replay filter
	OnlyScn, OnlyCase string
	OnlyPath          []string

	States, Trans, Traces, Evals, Distinct int64
	outcomes                               sync.Map
	noutcomes                              int64

	redoing   bool // a failing case is executed again, to the end
	mu        sync.Mutex
	viol      *Violation
	stopped   int32
	truncated []string
	samples   []interface{}
	nsamples  map[string]int
	scns      map[string]map[string]interface{}
	scnOrder  []string
	rule      []string
	assume    []string
	known     map[string]bool
	knownSeen map[string]bool
}

func newCtx(id string) *Ctx {
	return &Ctx{ID: id, Start: time.Now(), nsamples: map[string]int{}, scns: map[string]map[string]interface{}{}, Workers: runtime.NumCPU()}
}

func (c *Ctx) Violated() bool { return atomic.LoadInt32(&c.stopped) != 0 }

func (c *Ctx) Stop() bool {
	return (c.Violated() && !c.redoing) || (time.Now().After(c.Deadline) && !c.redoing)
}

func (c *Ctx) Report(v *Violation) {
	c.mu.Lock()
	if c.viol == nil {
		c.viol = v
	}
	c.mu.Unlock()
	atomic.StoreInt32(&c.stopped, 1)
}

func (c *Ctx) Truncate(s string) {
	c.mu.Lock()
	c.truncated = append(c.truncated, s)
	c.mu.Unlock()
}

// Sample keeps a few written-out cases per kind.
func (c *Ctx) Sample(kind string, v interface{}) {
	c.mu.Lock()
	if c.nsamples[kind] < 2 && len(c.samples) < 24 {
		c.nsamples[kind]++
		c.samples = append(c.samples, map[string]interface{}{"kind": kind, "case": v})
	}
	c.mu.Unlock()
}

func (c *Ctx) Rule(s string)   { c.rule = append(c.rule, s) }
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Outcome counts distinct observed outcomes.
func (c *Ctx) Outcome(s string) {
	if _, dup := c.outcomes.LoadOrStore(s, true); !dup {
		atomic.AddInt64(&c.noutcomes, 1)
	}
}

func (c *Ctx) ScnSet(name string, kv ...interface{}) {
	c.mu.Lock()
	m := c.scns[name]
	if m == nil {
		m = map[string]interface{}{}
		c.scns[name] = m
		c.scnOrder = append(c.scnOrder, name)
	}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	c.mu.Unlock()
}

func (c *Ctx) skipScn(name string) bool { return c.OnlyScn != "" && c.OnlyScn != name }

// Quick or thorough value.
func (c *Ctx) Q(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// ---------------------------------------------------------------- sweeps

// Case collects what happened in one enumerated case.
type Case struct {
	c    *Ctx
	fail string
	ops  []string
}

func (k *Case) Failf(f string, a ...interface{}) bool {
	if k.fail == "" {
		k.fail = fmt.Sprintf(f, a...)
	}
	return false
}
func (k *Case) Failed() bool { return k.fail != "" }
func (k *Case) Eval(n int)   { atomic.AddInt64(&k.c.Evals, int64(n)) }
func (k *Case) Eval1(outcome string) {
	atomic.AddInt64(&k.c.Evals, 1)
	k.c.Outcome(outcome)
}
func (k *Case) Nontrivial(n int) { atomic.AddInt64(&k.c.Distinct, int64(n)) }
func (k *Case) State(n int)      { atomic.AddInt64(&k.c.States, int64(n)) }
func (k *Case) Trans(n int)      { atomic.AddInt64(&k.c.Trans, int64(n)) }
func (k *Case) Trace(n int)      { atomic.AddInt64(&k.c.Traces, int64(n)) }

// guard runs harness code; a panic in it that stems from the library is a failure.
func guard(k *Case, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case harnessErr:
				panic(x)
			case reloadErr:
				k.Failf("%s", x.s)
			case crash:
				panic(x)
			default:
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				k.Failf("panic: %v @ %s", e, panicSite(string(buf)))
			}
		}
	}()
	f()
}

// Each runs cases 0..n-1 of a scenario in parallel, each exhaustively listed.
func (c *Ctx) Each(scn string, n int, name func(i int) string, f func(k *Case, i int)) {
	if c.skipScn(scn) || c.Violated() {
		return
	}
	t0 := time.Now()
	var next, done int64 = -1, 0
	var wg sync.WaitGroup
	run1 := func(i int) string {
		k := &Case{c: c}
		guard(k, func() { f(k, i) })
		return k.fail
	}
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Stop() {
					return
				}
				nm := name(i)
				if c.OnlyCase != "" && c.OnlyCase != nm {
					continue
				}
				if s := run1(i); s != "" {
					c.Report(&Violation{Scenario: scn, Case: nm, Text: s, redo: func() string { return run1(i) }})
					return
				}
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	wg.Wait()
	if int(done) < n && !c.Violated() && c.OnlyCase == "" {
		c.Truncate(fmt.Sprintf("%s: %d of %d cases", scn, done, n))
	}
	c.ScnSet(scn, "cases", done, "of", n, "wall_s", round2(time.Since(t0).Seconds()))
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// One runs a single case.
func (c *Ctx) One(scn string, f func(k *Case)) {
	c.Each(scn, 1, func(int) string { return "0" }, func(k *Case, _ int) { f(k) })
}

// ---------------------------------------------------------------- breadth-first search

// setupErr is what building an initial state panics with if the library fails in it.
type setupErr struct {
	op string
	fs []Finding
}

func (s setupErr) Error() string { return fmt.Sprint("set-up ", s.op, ": ", s.fs) }

// Setup builds the starting point of a sweep; nil if the library fails on the way,
// which is a violation of this property only for the given classes.
func Setup[T any](c *Ctx, scn string, cls map[string]bool, f func() T) (out T, ok bool) {
	if c.Violated() {
		return out, false
	}
	run := func() (t T, fs []Finding) {
		k := &Case{c: c}
		guard(k, func() {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(setupErr); ok {
						fs = se.fs
						return
					}
					panic(e)
				}
			}()
			t = f()
		})
		if k.fail != "" {
			fs = append(fs, Finding{"panic", k.fail})
		}
		return
	}
	text := func(fs []Finding) string {
		for _, x := range fs {
			if cls[x.Class] || x.Class == "panic" {
				return "set-up: " + x.Class + ": " + x.Text
			}
		}
		return ""
	}
	t, fs := run()
	if len(fs) == 0 {
		return t, true
	}
	if s := text(fs); s != "" {
		c.Report(&Violation{Scenario: scn, Case: "setup", Text: s, redo: func() string { _, fs := run(); return text(fs) }})
	} else {
		c.Truncate(fmt.Sprintf("%s: the set-up fails (%v), which is another property's violation", scn, fs))
	}
	return out, false
}

// Finding is a disagreement; class says what kind.
type Finding struct{ Class, Text string }

// System is an explicit-state system whose transition function runs the library.
type System[S any, O fmt.Stringer] struct {
	Name    string
	Init    func() S
	Ops     func(s S) []O
	Apply   func(s S, o O) (S, []Finding)
	Key     func(s S) [32]byte
	Live    func(path []O) []Finding // optional: replays a path in the other store mode
	Visit   func(s S) []Finding      // optional: invariant evaluated in every state
	Classes map[string]bool
	Depth   int
	Max     int // states
	MaxLive int
}

type node[S any, O fmt.Stringer] struct {
	s      S
	parent *node[S, O]
	op     O
	depth  int
	kids   int32
	idx    int // position in its level
	opi    int // position of op among the parent's
}

func (n *node[S, O]) path() []O {
	var p []O
	for x := n; x.parent != nil; x = x.parent {
		p = append(p, x.op)
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func strs[O fmt.Stringer](p []O) []string {
	out := make([]string, len(p))
	for i := range p {
		out[i] = p[i].String()
	}
	return out
}

// Explore enumerates all states reachable within the depth bound.
func Explore[S any, O fmt.Stringer](c *Ctx, sys System[S, O]) {
	if c.skipScn(sys.Name) || c.Violated() {
		return
	}
	t0 := time.Now()
	first := func(fs []Finding) string {
		for _, f := range fs {
			if sys.Classes[f.Class] || f.Class == "panic" {
				return f.Class + ": " + f.Text
			}
		}
		return ""
	}
	applySafe := func(s S, o O) (ns S, fs []Finding, bad bool) {
		k := &Case{c: c}
		guard(k, func() { ns, fs = sys.Apply(s, o) })
		if k.fail != "" {
			return ns, []Finding{{"panic", k.fail}}, true
		}
		return ns, fs, false
	}
	visitSafe := func(s S) (fs []Finding) {
		if sys.Visit == nil {
			return nil
		}
		k := &Case{c: c}
		guard(k, func() { fs = sys.Visit(s) })
		if k.fail != "" {
			fs = append(fs, Finding{"panic", k.fail})
		}
		return fs
	}
	liveSafe := func(p []O) (fs []Finding) {
		k := &Case{c: c}
		guard(k, func() { fs = sys.Live(p) })
		if k.fail != "" {
			fs = append(fs, Finding{"panic", k.fail})
		}
		return fs
	}
	// run executes a path from the start, as reproduction.
	run := func(p []O) string {
		s := sys.Init()
		if t := first(visitSafe(s)); t != "" {
			return t
		}
		for _, o := range p {
			ns, fs, bad := applySafe(s, o)
			if t := first(fs); t != "" {
				return t
			}
			if bad || len(fs) > 0 {
				return ""
			}
			s = ns
			if t := first(visitSafe(s)); t != "" {
				return t
			}
		}
		return ""
	}
	report := func(p []O, text string, live bool) {
		cs := "path"
		redo := func() string { return run(p) }
		if live {
			cs = "live"
			redo = func() string { return first(liveSafe(p)) }
		}
		c.Report(&Violation{Scenario: sys.Name, Case: cs, Path: strs(p), Text: text, redo: redo})
	}
	if c.OnlyScn == sys.Name && c.OnlyPath != nil && c.OnlyCase != "setup" { // replay of one path
		s := sys.Init()
		var p []O
		for _, want := range c.OnlyPath {
			found := false
			for _, o := range sys.Ops(s) {
				if o.String() == want {
					p, found = append(p, o), true
					if c.OnlyCase != "live" {
						ns, fs, bad := applySafe(s, o)
						if t := first(fs); t != "" {
							report(p, t, false)
							return
						}
						if bad || len(fs) > 0 {
							fmt.Println("replay: stops after", strs(p), fs)
							return
						}
						s = ns
						if t := first(visitSafe(s)); t != "" {
							report(p, t, false)
							return
						}
					} else {
						s, _, _ = applySafe(s, o)
					}
					break
				}
			}
			if !found {
				fmt.Println("replay: operation not available:", want)
				return
			}
		}
		if c.OnlyCase == "live" && sys.Live != nil {
			if t := first(liveSafe(p)); t != "" {
				report(p, t, true)
			}
		}
		return
	}

	type shard struct {
		sync.Mutex
		m map[[32]byte]bool
	}
	var seen [64]shard
	for i := range seen {
		seen[i].m = map[[32]byte]bool{}
	}
	add := func(k [32]byte) bool {
		sh := &seen[k[0]%64]
		sh.Lock()
		defer sh.Unlock()
		if sh.m[k] {
			return false
		}
		sh.m[k] = true
		return true
	}
	var init S
	var initF []Finding
	func() {
		k := &Case{c: c}
		guard(k, func() {
			defer func() {
				if e := recover(); e != nil {
					if se, ok := e.(setupErr); ok {
						initF = se.fs
						return
					}
					panic(e)
				}
			}()
			init = sys.Init()
		})
		if k.fail != "" {
			initF = append(initF, Finding{"panic", k.fail})
		}
	}()
	if len(initF) > 0 {
		if t := first(initF); t != "" {
			c.Report(&Violation{Scenario: sys.Name, Case: "setup", Text: t, redo: func() (r string) {
				defer func() {
					if e := recover(); e != nil {
						r = fmt.Sprint(e)
					}
				}()
				sys.Init()
				return ""
			}})
		} else {
			c.Truncate(fmt.Sprintf("%s: the set-up fails (%v), which is another property's violation", sys.Name, initF))
		}
		return
	}
	root := &node[S, O]{s: init}
	if t := first(visitSafe(root.s)); t != "" {
		report(nil, t, false)
		return
	}
	add(sys.Key(root.s))
	var nstates, ntrans, npruned, ntraces int64 = 1, 0, 0, 0
	level := []*node[S, O]{root}
	var leaves []*node[S, O]
	depth := 0
	capped := false
	for len(level) > 0 && depth < sys.Depth && !c.Stop() {
		var next []*node[S, O]
		var mu sync.Mutex
		var idx int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < c.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&idx, 1))
					if i >= len(level) || c.Stop() {
						return
					}
					n := level[i]
					for oi, o := range sys.Ops(n.s) {
						if c.Stop() {
							return
						}
						ns, fs, _ := applySafe(n.s, o)
						atomic.AddInt64(&ntrans, 1)
						if len(fs) > 0 {
							atomic.AddInt64(&npruned, 1)
							if t := first(fs); t != "" {
								report(append(n.path(), o), t, false)
								return
							}
							continue
						}
						if !add(sys.Key(ns)) {
							continue
						}
						ch := &node[S, O]{s: ns, parent: n, op: o, opi: oi, depth: n.depth + 1}
						if fs := visitSafe(ns); len(fs) > 0 {
							atomic.AddInt64(&npruned, 1)
							if t := first(fs); t != "" {
								report(ch.path(), t, false)
								return
							}
							continue
						}
						atomic.AddInt32(&n.kids, 1)
						atomic.AddInt64(&nstates, 1)
						mu.Lock()
						next = append(next, ch)
						mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
		for _, n := range level {
			if n.kids == 0 {
				leaves = append(leaves, n)
			}
			var z S
			n.s = z // only paths are needed from now on
		}
		// canonical order of the next level
		sort.Slice(next, func(a, b int) bool {
			if next[a].parent.idx != next[b].parent.idx {
				return next[a].parent.idx < next[b].parent.idx
			}
			return next[a].opi < next[b].opi
		})
		for i, n := range next {
			n.idx = i
		}
		level = next
		depth++
		if sys.Max > 0 && int(nstates) >= sys.Max {
			capped = true
			break
		}
	}
	if c.Stop() && !c.Violated() && len(level) > 0 {
		capped = true
	}
	leaves = append(leaves, level...)
	if capped {
		c.Truncate(fmt.Sprintf("%s: all states up to depth %d of %d", sys.Name, depth, sys.Depth))
	}
	atomic.AddInt64(&c.States, nstates)
	atomic.AddInt64(&c.Trans, ntrans)
	if sys.Live != nil && !c.Violated() {
		// replay root-to-leaf paths from the start in the other store mode
		max := sys.MaxLive
		if max == 0 {
			max = 4000
		}
		sel := leaves
		if len(sel) > max { // spread evenly; deterministic
			var s2 []*node[S, O]
			for i := 0; i < max; i++ {
				s2 = append(s2, sel[i*len(sel)/max])
			}
			sel = s2
		}
		var idx int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < c.Workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&idx, 1))
					if i >= len(sel) || c.Stop() {
						return
					}
					p := sel[i].path()
					if t := first(liveSafe(p)); t != "" {
						report(p, t, true)
						return
					}
					atomic.AddInt64(&ntraces, 1)
				}
			}()
		}
		wg.Wait()
		atomic.AddInt64(&c.Traces, ntraces)
	}
	for i, n := range leaves {
		if i == 0 || i == len(leaves)/2 || i == len(leaves)-1 {
			c.Sample(sys.Name, strings.Join(strs(n.path()), " ; "))
		}
	}
	c.ScnSet(sys.Name, "states", nstates, "transitions", ntrans, "pruned", npruned, "depth", depth,
		"replayed_in_other_store_mode", ntraces, "leaves", len(leaves), "capped", capped, "wall_s", round2(time.Since(t0).Seconds()))
}

func sum(parts ...[]byte) [32]byte {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:", len(p))
		h.Write(p)
	}
	var out [32]byte
	h.Sum(out[:0])
	return out
}

// ---------------------------------------------------------------- evidence

type childResult struct {
	Violation   *Violation             `json:"violation"`
	Confirmed   int                    `json:"confirmed"`
	Evidence    map[string]interface{} `json:"evidence"`
	Truncated   []string               `json:"truncated"`
	Known       []string               `json:"known"`
	HarnessFail string                 `json:"harness_fail"`
}

func (c *Ctx) evidence(level string) map[string]interface{} {
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cov := map[string]interface{}{"exhaustive": len(c.truncated) == 0 && !c.Violated()}
	if len(c.truncated) > 0 {
		cov["truncated"] = c.truncated
	}
	switch level {
	case "model_checking":
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = c.States, c.Trans, c.Traces
		if c.Evals > 0 {
			cov["evaluations"] = c.Evals
		}
	default:
		cov["evaluations"], cov["distinct_nontrivial"] = c.Evals, c.Distinct
		if c.States > 0 {
			cov["states"], cov["transitions"] = c.States, c.Trans
		}
		if c.Traces > 0 {
			cov["traces_validated_against_impl"] = c.Traces
		}
	}
	if c.noutcomes > 0 {
		cov["distinct_outcomes"] = c.noutcomes
		var l []string
		c.outcomes.Range(func(k, _ interface{}) bool {
			if s := k.(string); len(s) < 120 {
				l = append(l, s)
			}
			return true
		})
		sort.Strings(l)
		if len(l) > 60 {
			l = append(l[:30:30], l[len(l)-30:]...)
		}
		cov["outcomes"] = l
	}
	cov["rule"] = strings.Join(c.rule, " ")
	cov["samples"] = c.samples
	scs := []interface{}{}
	for _, n := range c.scnOrder {
		m := c.scns[n]
		m["name"] = n
		scs = append(scs, m)
	}
	cov["scenarios"] = scs
	v := 0
	if c.viol != nil {
		v = 1
	}
	return map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": c.Seed, "level": level, "coverage": cov,
		"assumptions": c.assume, "wall_s": round2(time.Since(c.Start).Seconds()), "violations": v,
	}
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// Par runs scenarios at the same time (one after the other in a sequential run).
func (c *Ctx) Par(fs ...func()) {
	if c.Workers == 1 {
		for _, f := range fs {
			f()
		}
		return
	}
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}
