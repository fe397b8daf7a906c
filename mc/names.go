package main

import (
	"crypto/sha256"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"strings"
)

// Names that differ in little: what a shortened, normalized, hashed or joined name
// would mix up.

type namePair struct{ What, A, B string }

// clash finds two names with the same value of a short hash.
func clash(h func(string) uint32) (string, string) {
	seen := map[uint32]string{}
	for i := 0; ; i++ {
		s := fmt.Sprintf("%.12x", sha256.Sum256([]byte{byte(i), byte(i >> 8), byte(i >> 16)}))
		x := h(s)
		if t, ok := seen[x]; ok {
			return t, s
		}
		seen[x] = s
	}
}

func similarNames(many bool) (ps []namePair) {
	add := func(what, a, b string) { ps = append(ps, namePair{what, a, b}) }
	lens := []int{1, 7, 8, 9, 12, 15, 16, 19, 20, 23, 24, 27, 28, 30, 31, 32, 36, 39, 40, 47, 48, 49, 50, 59, 60, 62, 63, 64, 79, 80, 95, 96, 99, 100, 119, 120, 126, 127, 128, 159, 160, 191, 192, 199, 200, 249, 250, 252, 253, 254, 255, 256, 299, 300, 319, 320, 383, 384, 399, 400, 499, 500, 511, 512, 767, 768, 999, 1000, 1022, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 1 << 20}
	if !many {
		lens = []int{1, 8, 12, 16, 20, 24, 32, 40, 48, 50, 60, 63, 64, 80, 96, 100, 120, 127, 128, 160, 192, 200, 250, 255, 256, 300, 400, 500, 512, 1000, 1024, 2048, 4096, 16384, 65535, 65536}
	}
	for _, n := range lens {
		s := strings.Repeat("long", n/4+1)[:n]
		add(fmt.Sprintf("same first %d bytes", n), s+"A", s+"B")
		add(fmt.Sprintf("same last %d bytes", n), "A"+s, "B"+s)
		add(fmt.Sprintf("%d bytes and one more", n), s, s+"l")
	}
	add("case", "bob", "BOB")
	add("case beyond ASCII", "b\u00f6b", "b\u00d6b")
	add("case that folds", "\u212aay", "kay")
	add("composed and not", "b\u00f6b", "bo\u0308b")
	add("ligature", "\ufb01n", "fin")
	add("full width", "\uff42ob", "bob")
	add("space behind", "bob", "bob ")
	add("space before", "bob", " bob")
	add("two spaces", "b ob", "b  ob")
	add("tab", "b\tob", "b ob")
	add("newline behind", "bob", "bob\n")
	add("zero behind", "bob", "bob\x00")
	add("zero inside", "bob\x00a", "bob\x00b")
	add("zeros only", "\x00", "\x00\x00")
	add("nothing and zero", "", "\x00")
	add("nothing and space", "", " ")
	add("not UTF-8", "bob\xff", "bob\xfe")
	add("not UTF-8 and replaced", "bob\xff", "bob\ufffd")
	add("byte order mark", "\ufeffbob", "bob")
	add("invisible", "b\u200bob", "bob")
	add("plus", "+15550100", "15550100")
	add("hyphens", "1555-0100", "15550100")
	add("leading zeros", "0015550100", "15550100")
	add("number forms", "1", "1.0")
	add("number forms", "1e1", "10")
	add("large numbers", "18446744073709551616", "0")
	add("escapes", "a%20b", "a b")
	add("escapes", "a\\nb", "a\nb")
	add("escapes", "a+b", "a b")
	add("domain", "bob@one.example", "bob@two.example")
	add("tagged", "bob+x@example", "bob@example")
	add("dots", "b.ob@example", "bob@example")
	add("dot behind", "bob.", "bob")
	add("separator", "bob:1", "bob")
	add("separator behind", "bob:", "bob")
	add("separators", "bob::1", "bob:1")
	add("separator", "bob/1", "bob")
	add("separator", "bob_1", "bob")
	add("separator", "bob.1", "bob")
	add("separator", "bob-1", "bob")
	add("path", "a/../bob", "bob")
	add("path", "./bob", "bob")
	add("uuids", "9d0652a3-dcc3-4d11-975f-74d61598733f", "9d0652a3-dcc3-4d11-975f-74d61598733e")
	add("uuid case", "9d0652a3-dcc3-4d11-975f-74d61598733f", "9D0652A3-DCC3-4D11-975F-74D61598733F")
	add("uuid hyphens", "9d0652a3-dcc3-4d11-975f-74d61598733f", "9d0652a3dcc34d11975f74d61598733f")
	add("letters in another order", "abcdef", "fedcba")
	add("hash of Java", "Aa", "BB")
	a, b := clash(func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() })
	add("hash FNV-1", a, b)
	a, b = clash(func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() })
	add("hash FNV-1a", a, b)
	a, b = clash(func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) })
	add("CRC32", a, b)
	a, b = clash(func(s string) uint32 { return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli)) })
	add("CRC32C", a, b)
	a, b = clash(func(s string) uint32 { return adler32.Checksum([]byte(s)) })
	add("Adler32", a, b)
	return
}

func similarDevices() (ps [][2]uint32) {
	for _, d := range []uint32{0, 1, 2} {
		for k := uint(3); k < 32; k++ {
			ps = append(ps, [2]uint32{d, d + 1<<k})
		}
	}
	for _, p := range [][2]uint32{{0, 1}, {1, 2}, {1, 10}, {1, 11}, {11, 111}, {2147483647, 2147483648}, {0, 4294967295}, {1, 4294967295}, {4294967294, 4294967295}, {0, 2147483648}, {99, 100}, {999, 1000}, {0, 1000}, {1, 1001}, {1, 10001}} {
		ps = append(ps, p)
	}
	return
}

// similarAddrs are pairs of addresses that differ in little.
func similarAddrs(many bool) (out []struct {
	What string
	A, B Addr
}) {
	add := func(what string, a, b Addr) {
		out = append(out, struct {
			What string
			A, B Addr
		}{what, a, b})
	}
	for _, p := range similarNames(many) {
		add(p.What, Addr{p.A, 1}, Addr{p.B, 1})
	}
	for _, d := range similarDevices() {
		add(fmt.Sprintf("devices %d and %d", d[0], d[1]), Addr{"bob", d[0]}, Addr{"bob", d[1]})
	}
	for _, s := range []string{"", ":", "::", ".", "_", "-", "/", "|", " ", "#", "@", "\x00"} {
		add("joined with "+fmt.Sprintf("%q", s), Addr{"bob" + s + "1", 1}, Addr{"bob", 11})
		add("joined twice with "+fmt.Sprintf("%q", s), Addr{"bob" + s + "1", 2}, Addr{"bob", 12})
		add("number moved over "+fmt.Sprintf("%q", s), Addr{"bob" + s + "1" + s + "2", 3}, Addr{"bob" + s + "1", 23})
		add("number before "+fmt.Sprintf("%q", s), Addr{"1" + s + "bob", 1}, Addr{"11" + s + "bob", 0})
		add("name that is an address "+fmt.Sprintf("%q", s), Addr{"bob" + s + "1", 1}, Addr{"bob", 1})
	}
	return
}
