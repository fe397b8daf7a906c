package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/ref"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"

	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
)

// C01: threads with data of their own, in all schedules and under the race detector.

func init() { register("C01", "model_checking", checkC01) }

// freeRun: threads run without scheduler, watchdog and deterministic randomness, so
// that nothing of the harness orders them.
var freeRun bool

func refPub(priv [32]byte) [32]byte { return ref.PublicKey(priv) }

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// point is a scheduling point of the running thread.
func point(what string) {
	if c := curCtx(); c != nil && c.point != nil {
		c.point(what)
	}
}

// yser stops before and after every call of a serializer.
type yser[T any] struct {
	s interface {
		Serialize(*T) []byte
		Deserialize([]byte) (*T, error)
	}
}

func (y yser[T]) Serialize(t *T) []byte {
	point("serialize")
	b := y.s.Serialize(t)
	point("serialized")
	return b
}

func (y yser[T]) Deserialize(b []byte) (*T, error) {
	point("deserialize")
	t, err := y.s.Deserialize(b)
	point("deserialized")
	return t, err
}

func yielding(s *serialize.Serializer) *serialize.Serializer {
	return &serialize.Serializer{
		SenderKeyRecord:              yser[grecord.SenderKeyStructure]{s.SenderKeyRecord},
		SenderKeyState:               yser[grecord.SenderKeyStateStructure]{s.SenderKeyState},
		SignalMessage:                yser[protocol.SignalMessageStructure]{s.SignalMessage},
		PreKeySignalMessage:          yser[protocol.PreKeySignalMessageStructure]{s.PreKeySignalMessage},
		SenderKeyMessage:             yser[protocol.SenderKeyMessageStructure]{s.SenderKeyMessage},
		SenderKeyDistributionMessage: yser[protocol.SenderKeyDistributionMessageStructure]{s.SenderKeyDistributionMessage},
		SignedPreKeyRecord:           yser[record.SignedPreKeyStructure]{s.SignedPreKeyRecord},
		PreKeyRecord:                 yser[record.PreKeyStructure]{s.PreKeyRecord},
		State:                        yser[record.StateStructure]{s.State},
		Session:                      yser[record.SessionStructure]{s.Session},
	}
}

type schedResult struct {
	Schedules, Steps int
	Points           []int
	Fail             string
	Script           []int
	Capped           bool
	Note             string `json:",omitempty"`
}

func ints(s string) (out []int) {
	for _, x := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(x); err == nil {
			out = append(out, n)
		}
	}
	return
}

func joinInts(l []int) string {
	var s []string
	for _, x := range l {
		s = append(s, itoa(x))
	}
	return strings.Join(s, ",")
}

// schedChild explores the schedules of some bodies in this process.
// args: ids json live bound max [script]
func schedChild(a []string) {
	ids, js, live := ints(a[0]), a[1] == "true", a[2] == "true"
	bound, _ := strconv.Atoi(a[3])
	max, _ := strconv.Atoi(a[4])
	fx := readFixture()
	ser := yielding(serializer(js))
	logPoints = true
	siteHook()
	want := make([][32]byte, len(ids))
	known := make([]bool, len(ids))
	res := schedResult{Points: make([]int, len(ids))}
	one := func(script []int, only int) ([]sstep, string) {
		ps := prepare(fx, ids, js, live, ser)
		s := newSched(script)
		errs := make([]error, len(ids))
		fp := make([][32]byte, len(ids))
		for i := range ps {
			if only >= 0 && i != only {
				continue
			}
			p, i := &ps[i], i
			s.spawn(func(t *thr) {
				g := &gctx{rng: &p.st.P.Rng, point: sparse(func(what string) { s.yield(t, what) })}
				overlay.Store(gid(), g)
				defer overlay.Delete(gid())
				p.st.Hook = func(call string, mut bool) { s.yield(t, call) }
				out, err := p.b.run(p.f, p.st)
				p.st.Hook = nil
				errs[i] = err
				if err == nil {
					fp[i] = p.finger(out)
				}
			})
		}
		s.run()
		if s.hung != "" {
			return s.Steps, s.hung
		}
		for i := range ps {
			if only >= 0 && i != only {
				continue
			}
			who := fmt.Sprintf("thread %d (%s)", i, ps[i].b.name)
			if errs[i] != nil {
				return s.Steps, who + ": " + errs[i].Error()
			}
			if only >= 0 {
				want[i], known[i] = fp[i], true
				res.Points[i] = s.ths[0].points
			} else if known[i] && fp[i] != want[i] {
				return s.Steps, who + ": the result differs from that of the thread alone"
			}
		}
		return s.Steps, ""
	}
	for i := range ids {
		if _, bad := one(nil, i); bad != "" {
			// fails alone: another property's
			res.Fail = "alone: " + bad
			known[i] = false
		}
	}
	if res.Fail == "" {
		if len(a) > 5 {
			st, bad := one(ints(a[5]), -1)
			res.Schedules, res.Steps, res.Fail, res.Script = 1, len(st), bad, ints(a[5])
		} else {
			res.Schedules, res.Steps, res.Script, res.Fail, res.Capped = allSchedules(bound, max, func(s []int) ([]sstep, string) { return one(s, -1) })
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// raceChild runs bodies freely in this process; args: ids json live default-logger.
func raceChild(a []string) {
	freeRun = true
	ids, js, live := ints(a[0]), a[1] == "true", a[2] == "true"
	if a[3] != "true" {
		var lg logger.Loggable = silent{}
		logger.Setup(&lg)
	}
	fx := readFixture()
	ser := serializer(js)
	ps := prepare(fx, ids, js, live, ser)
	start := make(chan bool)
	var wg sync.WaitGroup
	errs := make([]error, len(ps))
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			_, errs[i] = ps[i].b.run(ps[i].f, ps[i].st)
		}(i)
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			fmt.Fprintf(os.Stderr, "FAILED thread %d (%s): %v\n", i, ps[i].b.name, err)
			os.Exit(67)
		}
	}
}

// runFree executes library code without any bookkeeping.
func runFree(st *Store, f func(r *Res)) (r *Res) {
	r = &Res{}
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprint(e) + " @ " + panicSite(string(debug.Stack()))
		}
	}()
	f(r)
	return
}

// sub runs this program with other arguments.
func sub(prog string, args ...string) (out, errOut string, code int) {
	cmd := exec.Command(prog, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &tail{b: &e}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		panic(harnessErr{err.Error()})
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		return o.String(), e.String() + "\nkilled after 100 s", -9
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// schedProg is the program with scheduling points in the library, if it could be built.
func schedProg() string {
	p := os.Args[0] + "-pts"
	if _, err := os.Stat(p); err == nil {
		return p
	}
	return os.Args[0]
}

// exploreChild runs a scheduling child and takes over its results.
func exploreChild(k *Case, script *[]int, args ...string) {
	if *script != nil {
		args = append(args, joinInts(*script))
	}
	out, errOut, code := sub(schedProg(), args...)
	var r schedResult
	if json.Unmarshal([]byte(out), &r) != nil || code != 0 {
		if isLibraryCrash(errOut) {
			k.Failf("the process ends: %s", firstLines(errOut, 6))
			return
		}
		panic(harnessErr{fmt.Sprintf("%v: %d %s %s", args, code, firstLines(out, 3), firstLines(errOut, 10))})
	}
	if strings.HasPrefix(r.Fail, "alone: ") {
		k.c.Truncate(fmt.Sprintf("%v: %s, which is another property's violation", args, r.Fail))
		return
	}
	if r.Fail != "" {
		*script = r.Script
		k.Failf("%s; schedule %v", r.Fail, r.Script)
		return
	}
	if r.Note != "" {
		k.c.Truncate(fmt.Sprintf("%v: %s", args, r.Note))
	}
	if r.Capped {
		k.c.Truncate(fmt.Sprintf("%v: %d schedules", args, r.Schedules))
	}
	k.Trace(r.Schedules)
	k.State(r.Steps)
	k.Trans(r.Steps)
	k.Eval(r.Schedules)
	k.Nontrivial(r.Schedules)
	k.c.Sample("schedules", fmt.Sprintf("%v: %d schedules, %v scheduling points", args, r.Schedules, r.Points))
	k.c.Outcome("as each thread alone")
}

func raceRun(k *Case, args ...string) {
	out, errOut, code := sub(os.Args[0]+"-race", args...)
	_ = out
	i := strings.Index(errOut, "WARNING: DATA RACE")
	switch {
	case i >= 0:
		if strings.Contains(errOut[i:], "prospik/libsignal-protocol-go/") {
			k.Failf("data race: %s", raceSites(errOut[i:]))
		} else {
			panic(harnessErr{"data race in the harness: " + firstLines(errOut[i:], 40)})
		}
	case isLibraryCrash(errOut) || strings.Contains(errOut, "fatal error: concurrent"):
		k.Failf("the process ends: %s", firstLines(errOut, 8))
	case code == 67:
		i := strings.Index(errOut, "FAILED thread")
		if i < 0 {
			i = 0
		}
		k.Failf("%s", firstLines(errOut[i:], 3))
	case code != 0:
		panic(harnessErr{fmt.Sprintf("%v: exit %d %s", args, code, firstLines(errOut, 10))})
	}
	k.Trace(1)
	k.Eval1("no race, no failure")
}

// raceSites lists the library's functions of a race report.
func raceSites(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "libsignal-protocol-go/") && strings.HasSuffix(l, ")") {
			out = append(out, l[strings.LastIndex(l, "libsignal-protocol-go/")+len("libsignal-protocol-go/"):])
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " | ")
}

func checkC01(c *Ctx) {
	c.Rule("Each case is a set of threads that share a serializer, the logger, the identity key pair and (with stores in memory) the signed prekey object, and work on sessions, groups, keys and messages of their own. A cooperative scheduler runs one thread at a time and switches at random reads, store calls, serializer calls, log calls and (in a copy of the library instrumented at build time) before every statement that refers to a package-level variable or locks, waits or uses an atomic, the first two times a thread comes by; all schedules with at most the given number of preemptions are run (pairs: 1 in the quick tier, 2 in the thorough one; triples of the same operation: 1), and every thread must produce exactly what it produces alone. Every pair also runs freely under Go's race detector as the first use of the library in a new process, with the silent and with the default logger. States and transitions count scheduling steps.")
	c.Assume("the race detector observes the executions it is given; it misses no unordered pair of accesses in them")
	writeFixture()
	nb := len(cbodies) - 1 // without the asynchronous one, see C02
	type cse struct {
		ids      []int
		js, live bool
		bound    int
	}
	var cases []cse
	for i := 0; i < nb; i++ {
		for j := i; j < nb; j++ {
			cases = append(cases, cse{[]int{i, j}, (i+j)%2 == 0, true, c.Q(1, 2)}, cse{[]int{i, j}, (i+j)%2 == 1, false, c.Q(1, 2)})
		}
	}
	for i := 0; i < nb; i++ {
		cases = append(cases, cse{[]int{i, i, i}, i%2 == 0, i%4 < 2, c.Q(0, 1)})
	}
	name := func(cs cse) string {
		s := ""
		for _, i := range cs.ids {
			s += cbodies[i].name + " "
		}
		return s + fmt.Sprintf("json %v live %v", cs.js, cs.live)
	}
	scripts := make([][]int, len(cases))
	c.Each("schedules", len(cases), func(i int) string { return name(cases[i]) }, func(k *Case, i int) {
		cs := cases[i]
		exploreChild(k, &scripts[i], "sched", joinInts(cs.ids), fmt.Sprint(cs.js), fmt.Sprint(cs.live), itoa(cs.bound), itoa(c.Q(1500, 60000)))
	})
	var rc []cse
	for i := range cbodies {
		for j := i; j < len(cbodies); j++ {
			rc = append(rc, cse{[]int{i, j}, (i+j)%2 == 0, (i+j)%4 < 2, 0}, cse{[]int{i, j}, (i+j)%2 == 1, (i+j)%4 >= 2, 1})
			if c.Thorough {
				rc = append(rc, cse{[]int{i, j}, (i+j)%2 == 0, (i+j)%4 >= 2, 0}, cse{[]int{i, j}, (i+j)%2 == 1, (i+j)%4 < 2, 1})
			}
		}
		rc = append(rc, cse{[]int{i, i, i}, false, false, 0}, cse{[]int{i, i, i}, true, true, 0})
	}
	c.Each("race-detector", len(rc), func(i int) string {
		return name(rc[i]) + fmt.Sprint(" default logger ", rc[i].bound == 1)
	}, func(k *Case, i int) {
		cs := rc[i]
		raceRun(k, "race", joinInts(cs.ids), fmt.Sprint(cs.js), fmt.Sprint(cs.live), fmt.Sprint(cs.bound == 1))
	})
}

// ---------------------------------------------------------------- asynchronous calls, freely

type freeDone struct {
	ok, bad int32
	ch      chan string
	data    interface{}
}

func newFree() *freeDone { return &freeDone{ch: make(chan string, 8)} }

func (d *freeDone) OnSuccess(r *complete.Result) {
	d.data = r.Data
	atomic.AddInt32(&d.ok, 1)
	d.ch <- "success"
}
func (d *freeDone) OnFailure(s string) {
	atomic.AddInt32(&d.bad, 1)
	d.ch <- "failure: " + s
}

func runAsyncFree(f *fixBody, st *Store) ([][]byte, error) {
	pub := st.P.IK.PublicKey().PublicKey()
	sig := arr64(f.Extra[1])
	false64 := sig
	false64[3] ^= 8
	a, b, s, g := newFree(), newFree(), newFree(), newFree()
	ecc.VerifySignatureAsync(pub, f.Extra[0], sig, a)
	ecc.VerifySignatureAsync(pub, f.Extra[0], false64, b)
	ecc.CalculateSignatureAsync(st.P.IK.PrivateKey(), f.Extra[0], s)
	keyhelper.GenerateIdentityKeyPairAsync(g)
	for i, d := range []*freeDone{a, b, s, g} {
		select {
		case x := <-d.ch:
			if (i == 1) == (x == "success") {
				return nil, fmt.Errorf("asynchronous call %d: %s", i, x)
			}
		case <-time.After(30 * time.Second):
			return nil, fmt.Errorf("asynchronous call %d never completes", i)
		}
	}
	return nil, nil
}
