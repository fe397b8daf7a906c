// gentable writes the table of key pairs in mc/special.bin: private keys whose bytes, or
// whose public keys' bytes, are out of the ordinary. Records of 32 bytes (clamped scalars):
// three blocks of 256, one per user, and 1024 for identities and prekeys. In a block,
// neighbours often agree in the first or the last bytes of their public keys.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"os"
	"sort"
	"sync"

	"golang.org/x/crypto/curve25519"
)

type kp struct{ priv, pub [32]byte }

func main() {
	const n = 1 << 23
	all := make([]kp, n)
	var wg sync.WaitGroup
	for c := 0; c < 8; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			for i := c; i < n; i += 8 {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], uint64(i))
				k := sha256.Sum256(b[:])
				switch i >> 3 % 8 {
				case 0:
					copy(k[:16], make([]byte, 16))
				case 1:
					copy(k[16:], make([]byte, 16))
				case 2:
					copy(k[:20], bytes.Repeat([]byte{0xff}, 20))
				}
				k[0] &= 248
				k[31] &= 127
				k[31] |= 64
				all[i].priv = k
				curve25519.ScalarBaseMult(&all[i].pub, &k)
			}
		}(c)
	}
	wg.Wait()
	used := map[[32]byte]bool{}
	var out []kp
	take := func(k kp) {
		if !used[k.priv] {
			used[k.priv] = true
			out = append(out, k)
		}
	}
	pick := func(f func(p []byte) bool) (r []kp) {
		for _, k := range all {
			if f(k.pub[:]) {
				r = append(r, k)
			}
		}
		return
	}
	zero2 := pick(func(p []byte) bool { return p[0] == 0 && p[1] == 0 })
	zeroEnd := pick(func(p []byte) bool { return p[31] == 0 && p[30] == 0 })
	fives := pick(func(p []byte) bool { return p[0] == 5 && p[1] == 5 })
	ffs := pick(func(p []byte) bool { return p[0] == 0xff && p[1] == 0xff })
	ffEnd := pick(func(p []byte) bool { return p[31] == 0x7f && p[30] == 0xff })
	five0 := pick(func(p []byte) bool { return p[0] == 5 && p[1] == 0 })
	rev := func(p [32]byte) (r [32]byte) {
		for i := range p {
			r[i] = p[31-i]
		}
		return
	}
	pairs := func(key func(k kp) [32]byte, n int) (r [][2]kp) {
		s := append([]kp{}, all...)
		sort.Slice(s, func(i, j int) bool { a, b := key(s[i]), key(s[j]); return bytes.Compare(a[:], b[:]) < 0 })
		for i := 0; i+1 < len(s); i++ {
			a, b := key(s[i]), key(s[i+1])
			if bytes.Equal(a[:n], b[:n]) {
				r = append(r, [2]kp{s[i], s[i+1]})
				i++
			}
		}
		return
	}
	pre := append(pairs(func(k kp) [32]byte { return k.pub }, 5), pairs(func(k kp) [32]byte { return k.pub }, 4)...)
	suf := append(pairs(func(k kp) [32]byte { return rev(k.pub) }, 5), pairs(func(k kp) [32]byte { return rev(k.pub) }, 4)...)
	single := [][]kp{zero2, zeroEnd, fives, ffs, ffEnd, five0, all[:8000]}
	next := make([]int, len(single))
	one := func(i int) {
		for {
			k := single[i][next[i]%len(single[i])]
			next[i] += 1
			if i == len(single)-1 {
				next[i] += 8
			}
			if !used[k.priv] || next[i] > len(single[i])*20 {
				take(k)
				return
			}
		}
	}
	np, ns := 0, 0
	for block := 0; block < 7; block++ {
		for i := 0; len(out) < (block+1)*256; i++ {
			switch i % 4 {
			case 0:
				take(pre[np][0])
				take(pre[np][1])
				np++
			case 1:
				one(i / 4 % 7)
			case 2:
				take(suf[ns][0])
				take(suf[ns][1])
				ns++
			case 3:
				one((i/4 + 3) % 7)
			}
		}
		out = out[:(block+1)*256]
	}
	f, _ := os.Create(os.Args[1])
	for _, k := range out {
		f.Write(k.priv[:])
	}
	f.Close()
	println(len(out), len(pre), len(suf), len(zero2), len(zeroEnd), len(fives), len(ffs), len(ffEnd), len(five0))
}
