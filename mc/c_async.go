package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/ref"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// C02: asynchronous calls. The goroutines are the library's: each is caught at its
// first scheduling point (random read, log call, callback) and scheduled from there.

func init() { register("C02", "model_checking", checkC02) }

// onStray, if set, adopts goroutines that nothing is known about.
var onStray func(what string)

// strayCtx is called at every scheduling point.
func strayCtx(what string) {
	if onStray != nil && curCtx() == nil {
		onStray(what)
	}
}

// akind is one kind of asynchronous call.
type akind struct {
	name string
	call func(x *actx, c complete.Completionable)
	// ok tells whether success is due
	ok bool
	// sync is the result of the synchronous call with this randomness
	sync func(x *actx) interface{}
	// valid tells whether a result is a possible one, whatever the randomness
	valid func(x *actx, r interface{}) bool
	dry   bool // without entropy
}

type actx struct {
	a, b *identity.KeyPair
	m    [2][]byte
	sig  [2][64]byte // of m[0] by a, of m[1] by b
}

func newActx() *actx {
	x := &actx{a: identityPair("async-a"), b: identityPair("async-b"), m: [2][]byte{[]byte("the first message"), []byte("another, longer second message")}}
	withRng(&Rng{Seed: "actx"}, func() {
		x.sig[0] = ecc.CalculateSignature(x.a.PrivateKey(), x.m[0])
		x.sig[1] = ecc.CalculateSignature(x.b.PrivateKey(), x.m[1])
	})
	return x
}

func akVerify(name string, key, msg, sig int, flip bool) akind {
	in := func(x *actx) (ecc.ECPublicKeyable, []byte, [64]byte) {
		k := x.a
		if key == 1 {
			k = x.b
		}
		s := x.sig[sig]
		if flip {
			s[40] ^= 1
		}
		return k.PublicKey().PublicKey(), x.m[msg], s
	}
	return akind{name: name, ok: key == msg && msg == sig && !flip,
		call: func(x *actx, c complete.Completionable) {
			k, m, s := in(x)
			ecc.VerifySignatureAsync(k, m, s, c)
		},
		sync: func(x *actx) interface{} {
			k, m, s := in(x)
			return ecc.VerifySignature(k, m, s)
		},
		valid: func(x *actx, r interface{}) bool { v, ok := r.(bool); return ok && v }}
}

func akSign(n int) akind {
	in := func(x *actx) (*identity.KeyPair, []byte) {
		if n == 1 {
			return x.b, x.m[1]
		}
		return x.a, x.m[0]
	}
	return akind{name: "sign " + string('A'+rune(n)), ok: true,
		call: func(x *actx, c complete.Completionable) {
			k, m := in(x)
			ecc.CalculateSignatureAsync(k.PrivateKey(), m, c)
		},
		sync: func(x *actx) interface{} {
			k, m := in(x)
			return ecc.CalculateSignature(k.PrivateKey(), m)
		},
		valid: func(x *actx, r interface{}) bool {
			s, ok := r.([64]byte)
			k, m := in(x)
			return ok && ref.Verify(k.PublicKey().PublicKey().PublicKey(), m, s)
		}}
}

func akGenerate(dry bool) akind {
	name := "generate"
	if dry {
		name = "generate without entropy"
	}
	return akind{name: name, ok: !dry, dry: dry,
		call: func(x *actx, c complete.Completionable) { keyhelper.GenerateIdentityKeyPairAsync(c) },
		sync: func(x *actx) interface{} {
			k, err := keyhelper.GenerateIdentityKeyPair()
			if err != nil {
				return err
			}
			return k.PrivateKey().Serialize()
		},
		valid: func(x *actx, r interface{}) bool {
			k, ok := r.(*identity.KeyPair)
			if !ok || k == nil {
				return false
			}
			return ref.PublicKey(k.PrivateKey().Serialize()) == k.PublicKey().PublicKey().PublicKey()
		}}
}

var akinds = []akind{
	akVerify("verify genuine A", 0, 0, 0, false),
	akVerify("verify altered A", 0, 0, 0, true),
	akVerify("verify genuine B", 1, 1, 1, false),
	akVerify("verify with the wrong key", 1, 0, 0, false),
	akVerify("verify another message", 0, 1, 0, false),
	akSign(0), akSign(1), akGenerate(false), akGenerate(true),
}

// adone records the callbacks of one call.
type adone struct {
	mu      sync.Mutex
	success []interface{}
	failure []string
	cb      func()
}

func (d *adone) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.success) + len(d.failure)
}
func (d *adone) OnSuccess(r *complete.Result) {
	d.cb()
	d.mu.Lock()
	if r == nil {
		d.success = append(d.success, nil)
	} else {
		d.success = append(d.success, r.Data)
	}
	d.mu.Unlock()
	asyncEnd()
}
func (d *adone) OnFailure(s string) {
	d.cb()
	d.mu.Lock()
	d.failure = append(d.failure, s)
	d.mu.Unlock()
	asyncEnd()
}

// asyncEnd ends the scheduling of the goroutine of a callback.
func asyncEnd() {
	if c := curCtx(); c != nil && c.end != nil {
		c.end()
	}
}

// asyncChild explores the schedules of some calls. args: kinds bound max log [script]
func asyncChild(a []string) {
	ids := ints(a[0])
	bound, _ := strconv.Atoi(a[1])
	max, _ := strconv.Atoi(a[2])
	logPoints = a[3] == "true"
	x := newActx()
	siteHook()
	const nstray = 8
	seed := func(i int) *Rng { return &Rng{Seed: "stray" + itoa(i)} }
	dry := func(p []byte) (int, error, bool) { return 0, errNoEntropy, true }
	type key struct{ kind, stray int }
	want := map[key]interface{}{}
	fault := false
	for _, k := range ids {
		fault = fault || akinds[k].dry
		for i := 0; i < nstray; i++ {
			g := &gctx{rng: seed(i)}
			if akinds[k].dry {
				g.fault = dry
			}
			bind(g, func() { want[key{k, i}] = akinds[k].sync(x) })
		}
	}
	res := schedResult{}
	for _, k := range ids {
		w := want[key{k, 0}]
		_, isErr := w.(error)
		if b, isB := w.(bool); (isB && b != akinds[k].ok) || (!isB && isErr == akinds[k].ok) {
			res.Fail = fmt.Sprintf("alone: %s gives %v", akinds[k].name, w)
		}
	}
	noStray := false
	one := func(script []int) ([]sstep, string) {
		s := newSched(script)
		s.patience = 10 * time.Second
		var mu sync.Mutex
		nreg := 0
		var curKind int
		reg := make(chan bool, 64)
		var adopted []uint64
		onStray = func(what string) {
			t := newThr()
			ended := false
			mu.Lock()
			n := nreg
			nreg++
			g := &gctx{rng: seed(n)}
			if akinds[curKind].dry {
				g.fault = dry
			}
			adopted = append(adopted, gid())
			mu.Unlock()
			g.point = sparse(func(w string) {
				if !ended {
					s.yield(t, w)
				}
			})
			g.end = func() {
				if !ended {
					// the runtime may give the place of this goroutine to another
					ended = true
					ctxs.Delete(gid())
					s.end(t)
				}
			}
			ctxs.Store(gid(), g)
			reg <- true
		}
		base := runtime.NumGoroutine()
		ds := make([]*adone, len(ids))
		s.spawn(func(t *thr) {
			me := &gctx{rng: &Rng{Seed: "caller"}, point: sparse(func(w string) { s.yield(t, w) })}
			bind(me, func() {
				for i, k := range ids {
					d := &adone{cb: func() { strayCtx("callback"); point("callback") }}
					ds[i] = d
					mu.Lock()
					curKind = k
					mu.Unlock()
					if akinds[k].dry {
						me.fault = dry
					}
					akinds[k].call(x, d)
					me.fault = nil
					if d.count() == 0 && !noStray {
						select {
						case <-reg:
						case <-time.After(1500 * time.Millisecond):
							noStray = true
						}
					}
					s.yield(t, "issued")
				}
			})
		})
		s.run()
		// goroutines that are through with their callback end by themselves
		for i := 0; i < 2000 && runtime.NumGoroutine() > base; i++ {
			if i < 200 {
				runtime.Gosched()
			} else {
				time.Sleep(500 * time.Microsecond)
			}
			s.run() // those that come back
		}
		onStray = nil
		mu.Lock()
		for _, g := range adopted {
			ctxs.Delete(g)
		}
		mu.Unlock()
		used := map[key]bool{}
		for i, k := range ids {
			ak := akinds[k]
			who := fmt.Sprintf("call %d (%s)", i, ak.name)
			d := ds[i]
			if d == nil {
				return s.Steps, who + " was never made: the call before does not return"
			}
			d.mu.Lock()
			ok, bad := d.success, d.failure
			d.mu.Unlock()
			if len(ok)+len(bad) != 1 {
				return s.Steps, fmt.Sprintf("%s: %d calls of OnSuccess and %d of OnFailure", who, len(ok), len(bad))
			}
			if ak.ok != (len(ok) == 1) {
				return s.Steps, fmt.Sprintf("%s: success %v, failure %v, but the synchronous call gives %v", who, ok, bad, want[key{k, 0}])
			}
			if !ak.ok {
				continue
			}
			if !ak.valid(x, ok[0]) {
				return s.Steps, fmt.Sprintf("%s: the result is %T %v", who, ok[0], ok[0])
			}
			r := ok[0]
			if p, isKP := r.(*identity.KeyPair); isKP {
				r = p.PrivateKey().Serialize()
			}
			if _, isB := r.(bool); isB || noStray {
				continue
			}
			found := false
			for n := 0; n < nstray && !found; n++ {
				if want[key{k, n}] == r && !used[key{0, n}] {
					used[key{0, n}], found = true, true
				}
			}
			if !found {
				return s.Steps, fmt.Sprintf("%s: the result is not what the synchronous call gives with any randomness delivered", who)
			}
		}
		if s.hung != "" {
			return s.Steps, s.hung
		}
		return s.Steps, ""
	}
	if res.Fail == "" {
		if len(a) > 4 {
			st, bad := one(ints(a[4]))
			res.Schedules, res.Steps, res.Fail, res.Script = 1, len(st), bad, ints(a[4])
		} else {
			res.Schedules, res.Steps, res.Script, res.Fail, res.Capped = allSchedules(bound, max, one)
		}
	}
	if noStray {
		res.Note = "no goroutine of the library was seen within its time in some schedule: the order of callbacks was left to the runtime"
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// nestDone does something in its callback, once.
type nestDone struct {
	ok, bad int32
	first   int32
	do      func()
	end     chan bool
}

func (d *nestDone) back(n *int32) {
	atomic.AddInt32(n, 1)
	if atomic.AddInt32(&d.first, 1) == 1 {
		if d.do != nil {
			d.do()
		}
		close(d.end)
	}
}
func (d *nestDone) OnSuccess(*complete.Result) { d.back(&d.ok) }
func (d *nestDone) OnFailure(string)           { d.back(&d.bad) }

// nested runs calls that depend on each other's callbacks: with chain, each callback
// makes the next call and waits for its callback; otherwise all are made at once and
// every callback waits until all others have begun.
func nested(x *actx, kinds []int, chain bool) string {
	ds := make([]*nestDone, len(kinds))
	var begun sync.WaitGroup
	begun.Add(len(kinds))
	for i := range ds {
		ds[i] = &nestDone{end: make(chan bool)}
	}
	for i := range ds {
		i := i
		ds[i].do = func() {
			if !chain {
				begun.Done()
				begun.Wait()
			} else if i+1 < len(ds) {
				akinds[kinds[i+1]].call(x, ds[i+1])
				<-ds[i+1].end
			}
		}
	}
	go func() {
		for i := range ds {
			if i == 0 || !chain {
				akinds[kinds[i]].call(x, ds[i])
			}
		}
	}()
	late := time.After(15 * time.Second)
	for i, d := range ds {
		select {
		case <-d.end:
		case <-late:
			for i, d := range ds {
				if atomic.LoadInt32(&d.first) == 0 {
					return fmt.Sprintf("call %d (%s) has no callback while others wait for it in theirs", i, akinds[kinds[i]].name)
				}
			}
			return fmt.Sprintf("the callback of call %d (%s) does not return", i, akinds[kinds[i]].name)
		}
	}
	runtime.Gosched()
	for i, d := range ds {
		ok, bad := atomic.LoadInt32(&d.ok), atomic.LoadInt32(&d.bad)
		if ok+bad != 1 || akinds[kinds[i]].ok != (ok == 1) {
			return fmt.Sprintf("call %d (%s): %d calls of OnSuccess and %d of OnFailure", i, akinds[kinds[i]].name, ok, bad)
		}
	}
	return ""
}

func c02Nested(c *Ctx) {
	var ks []int // those that need no failing randomness
	for i, k := range akinds {
		if !k.dry {
			ks = append(ks, i)
		}
	}
	var sets [][]int
	for _, a := range ks {
		sets = append(sets, []int{a})
		for _, b := range ks {
			sets = append(sets, []int{a, b})
			for _, d := range ks {
				sets = append(sets, []int{a, b, d})
			}
		}
		same := make([]int, c.Q(20, 100))
		for i := range same {
			same[i] = a
		}
		sets = append(sets, same)
	}
	name := func(i int) string {
		if s := sets[i/2]; len(s) <= 3 {
			return fmt.Sprint("chain ", i%2 == 0, " kinds ", s)
		} else {
			return fmt.Sprint("chain ", i%2 == 0, " ", len(s), " of kind ", s[0])
		}
	}
	c.Each("nested", 2*len(sets), name, func(k *Case, i int) {
		if bad := nested(newActx(), sets[i/2], i%2 == 0); bad != "" {
			k.Failf("%s", bad)
			return
		}
		k.Eval1("calls made and awaited in callbacks complete")
		k.Trace(1)
	})
}

func checkC02(c *Ctx) {
	c.Rule("Each case is a set of up to three asynchronous calls (thorough: all sequences of three and the sets of four) of nine kinds: verification of genuine, altered and mismatched signatures, signing with two keys, identity key generation with and without entropy. The goroutines the library starts are caught at their first random read, log call, callback or statement that refers to a package-level variable or synchronizes (in a copy of the library instrumented at build time) and scheduled from there; all schedules with at most two preemptions (sets of three: one; one more in the thorough tier) are run, so that every order of callbacks, also before later calls are issued, occurs. In each, every call must have exactly one callback once its goroutine has ended, with the outcome and the result of the synchronous call with the same randomness. All sequences of up to three calls (and many of one kind) are also run so that each callback makes the next call and waits for it, and so that all callbacks wait for each other. The same calls run freely from several threads under the race detector. States and transitions count scheduling steps.")
	c02Nested(c)
	var sets [][]int
	n := len(akinds)
	for i := 0; i < n; i++ {
		sets = append(sets, []int{i})
		for j := i; j < n; j++ {
			sets = append(sets, []int{i, j})
			for k := j; k < n; k++ {
				if !c.Thorough {
					sets = append(sets, []int{i, j, k})
					continue
				}
				for l := k; l < n; l++ {
					sets = append(sets, []int{i, j, k, l})
				}
			}
		}
	}
	if c.Thorough {
		for i := 0; i < n*n*n; i++ {
			sets = append(sets, []int{i / n / n, i / n % n, i % n})
		}
	}
	name := func(i int) string {
		s := ""
		for _, k := range sets[i] {
			s += akinds[k].name + "; "
		}
		return s
	}
	scripts := make([][]int, len(sets))
	c.Each("schedules", len(sets), name, func(k *Case, i int) {
		b := c.Q(2, 3)
		if len(sets[i]) > 2 {
			b--
		}
		exploreChild(k, &scripts[i], "async", joinInts(sets[i]), itoa(b), itoa(c.Q(2500, 20000)), "false")
	})
	scripts2 := make([][]int, len(sets))
	var two []int
	for i, s := range sets {
		if len(s) < c.Q(3, 4) {
			two = append(two, i)
		}
	}
	c.Each("schedules-with-log-points", len(two), func(i int) string { return name(two[i]) }, func(k *Case, i int) {
		exploreChild(k, &scripts2[i], "async", joinInts(sets[two[i]]), itoa(c.Q(1, 2)), itoa(c.Q(2500, 20000)), "true")
	})
	writeFixture()
	ia := -1
	for i, b := range cbodies {
		if b.name == "async" {
			ia = i
		}
	}
	m := c.Q(6, 40)
	c.Each("race-detector", 2*m, func(i int) string { return itoa(i) }, func(k *Case, i int) {
		raceRun(k, "race", joinInts([]int{ia, ia, ia}[:1+i%3]), "false", fmt.Sprint(i%2 == 0), fmt.Sprint(i >= m))
	})
}
