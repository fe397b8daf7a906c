package main

import (
	"crypto/rand"
	"crypto/sha256"
	_ "embed"
	"encoding/binary"
	"errors"
	"io"
	"strings"
	"sync"
)

// Rng is a deterministic byte stream with a position, one per party, so that
// operations of different parties commute byte for byte.
type Rng struct {
	Seed string
	Pos  uint64
}

func (r *Rng) Read(p []byte) {
	if len(p) == 32 && strings.Contains(r.Seed, "!") {
		if k, ok := r.special(); ok {
			copy(p, k)
			r.Pos += 32
			return
		}
	}
	for i := 0; i < len(p); {
		blk := r.Pos / 32
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], blk)
		h := sha256.Sum256(append([]byte("rng:"+r.Seed+":"), b[:]...))
		n := copy(p[i:], h[r.Pos%32:])
		i += n
		r.Pos += uint64(n)
	}
}

//go:embed special.bin
var specialKeys []byte // see gentable

var specialSlots sync.Map // slot -> seed

// special is what a user whose name begins with "!" gets for a private key: one that is
// out of the ordinary, or whose public key is, or is like another one.
func (r *Rng) special() ([]byte, bool) {
	n := r.Pos / 32
	if r.Pos%32 != 0 {
		n++
	}
	var at uint64
	switch r.Seed {
	case "party:!alice:1", "party:!bob:1", "party:!carol:1":
		if n >= 256 {
			return nil, false
		}
		at = map[byte]uint64{'a': 0, 'b': 256, 'c': 512}[r.Seed[7]] + n
	default:
		if n > 0 {
			return nil, false
		}
		h := sha256.Sum256([]byte(r.Seed))
		at = 768 + uint64(binary.LittleEndian.Uint32(h[:]))%1024
		if o, had := specialSlots.LoadOrStore(at, r.Seed); had && o != r.Seed {
			panic(harnessErr{"the same unusual key for " + r.Seed + " and " + o.(string)})
		}
	}
	return specialKeys[at*32 : at*32+32], true
}

// gctx is what a goroutine that runs library code is bound to.
type gctx struct {
	rng   *Rng
	fault func(p []byte) (int, error, bool) // optional: answers a read itself
	point func(what string)                 // optional: scheduling point
	log   func(p []byte)                    // optional: sees what was delivered
	end   func()                            // optional: the goroutine is through
}

var ctxs sync.Map // goroutine id -> *gctx

func gid() uint64 { return uint64(getg()) }

func curCtx() *gctx {
	if c, ok := ctxs.Load(gid()); ok {
		return c.(*gctx)
	}
	return nil
}

// bind runs f with the goroutine bound to c.
func bind(c *gctx, f func()) {
	id := gid()
	old, had := ctxs.Load(id)
	ctxs.Store(id, c)
	defer func() {
		if had {
			ctxs.Store(id, old)
		} else {
			ctxs.Delete(id)
		}
	}()
	f()
}

type dispatch struct {
	mu  sync.Mutex
	def Rng
}

func (d *dispatch) Read(p []byte) (int, error) {
	strayCtx("rand")
	c := curCtx()
	if c == nil {
		d.mu.Lock()
		d.def.Read(p)
		d.mu.Unlock()
		return len(p), nil
	}
	if c.point != nil {
		c.point("rand")
	}
	if c.fault != nil {
		if n, err, ok := c.fault(p); ok {
			return n, err
		}
	}
	if c.rng == nil {
		d.mu.Lock()
		d.def.Read(p)
		d.mu.Unlock()
	} else {
		c.rng.Read(p)
	}
	if c.log != nil {
		c.log(p)
	}
	return len(p), nil
}

var errNoEntropy = errors.New("injected: no entropy")

var _ io.Reader = (*dispatch)(nil)

func installRng(seed string) {
	rand.Reader = &dispatch{def: Rng{Seed: "default" + seed}}
}

// withRng binds the goroutine to a stream for one library operation.
func withRng(r *Rng, f func()) {
	g := &gctx{rng: r}
	if o, ok := overlay.Load(gid()); ok {
		g.fault, g.point, g.log = o.(*gctx).fault, o.(*gctx).point, o.(*gctx).log
	}
	bind(g, f)
}

// withFault runs f with the n-th read of randomness (counted from 0) failing.
func withFault(r *Rng, n int, f func() *Res) *Res {
	var out *Res
	i := 0
	g := &gctx{rng: r, fault: func(p []byte) (int, error, bool) {
		i++
		if i-1 >= n {
			return 0, errNoEntropy, true
		}
		return 0, nil, false
	}}
	overlay.Store(gid(), g)
	defer overlay.Delete(gid())
	out = f()
	return out
}

var overlay sync.Map // goroutine -> *gctx whose fault is added to every binding

// withLog runs f and returns what the random source delivered meanwhile.
func withLog(f func()) (reads [][]byte) {
	g := &gctx{log: func(p []byte) { reads = append(reads, append([]byte{}, p...)) }}
	overlay.Store(gid(), g)
	defer overlay.Delete(gid())
	f()
	return
}
