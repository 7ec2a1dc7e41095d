package main

import (
	"encoding/binary"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// genHash picks a hash regime for kinds hashed by hash/maphash.
func genHash(r R) HashCfg {
	h := HashCfg{Salt: uint64(r.Int64()), Seed: uint64(r.Int64N(1 << 40))}
	switch pickW(r, []int{25, 20, 16, 16, 13, 10}) {
	case 1:
		h.Mode, h.P = 1, uint64(pick(r, 8, 8, 10, 16, 31, 64))
	case 2:
		h.Mode, h.P = 2, uint64(r.Range(1, 15))
	case 3:
		h.Mode, h.P = 3, uint64(pick(r, 1, 2, 8, 3, 9, 12, 5, 7, 14))
	case 4:
		h.Mode, h.P = 4, uint64(r.Range(1, 15))
	case 5:
		h.Mode, h.P = 5, uint64(pick(r, 1, 4, 9, 13, 14, 14, 15, 15))
	}
	return h
}

// genDeepHash is like genHash but always weakened.
func genDeepHash(r R) HashCfg {
	for {
		if h := genHash(r); h.Mode != 0 {
			return h
		}
	}
}

// stageHash sometimes replaces the hash regime by the staged one, in which keys
// collide on a chosen number of complete hashes.
func stageHash(r R, c *Case, p float64) {
	if keyFamily(c.Kind) == "digit" || !r.Chance(p) {
		return
	}
	h := HashCfg{Mode: 6, Salt: uint64(r.Int64()), Seed: c.Hash.Seed}
	least := minHashed(c.Kind, c.Keys)
	n := r.Range(1, 15) // the last hash that all share some digits of
	q := 16 - (12+15-n)/(16-n)
	h.P, h.Q = uint64(least*n), uint64(pick(r, q, q, r.IntN(q+1), r.IntN(q+1), min(q, 1), 0))
	if r.Chance(0.25) {
		h.P = uint64(r.Range(1, least*n))
	}
	if h.P > 4000 {
		h.P = uint64(r.Range(1, 4000))
	}
	if stagedOK(h, least) {
		c.Hash = h
	}
}

var edgeInts = []int64{0, 1, -1, 2, -2, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, 1 << 31, 1<<31 - 1, -1 << 31,
	1 << 32, 1<<32 - 1, 1<<32 + 1, -1 << 32, -1<<32 - 1, 1 << 16, 1 << 48, 0xFFFF, 0xFFFF << 32, 0xFFFF << 16, 1 << 33, 0x7FFF << 48, 1 << 62,
	0x0001000100010001, 0x5555555555555555, -0x5555555555555556}

func genInt(r R, style, i int) int64 {
	switch style {
	case 0:
		return int64(i)
	case 1:
		return -int64(i) - 1
	case 2:
		return int64(i) << 32
	case 3:
		return int64(i+1)<<uint(r.IntN(60)) ^ int64(r.IntN(4))
	case 4:
		if i < len(edgeInts) && r.Chance(0.8) {
			return edgeInts[r.IntN(len(edgeInts))]
		}
		return r.Int64() - r.Int64()
	case 5:
		return int64(r.Uint64())
	case 6:
		return int64(r.Uint64()&0xFFFF<<32) | int64(r.IntN(8))
	case 8: // one or two bits apart
		return int64(uint64(0x0123456789ABCDEF) ^ 1<<r.IntN(64) ^ 1<<pick(r, 0, 31, 32, 63, r.IntN(64)))
	case 9: // rotations
		return int64(bits.RotateLeft64(0x0011223344556677, 4*r.IntN(16)))
	case 10: // equal when the halves are combined by xor or +
		h := r.Uint32()
		return int64(uint64(h)<<32 | uint64(pick(r, h^0x5A5A, 7-h, h, -h)))
	default:
		return int64(i)*0x100000001 + int64(i&3)<<63
	}
}

func genBytes(r R, style, i, L int) []byte {
	switch style {
	case 0:
		return []byte(strconv.Itoa(i))
	case 1: // long common prefix
		return []byte(strings.Repeat("p", L) + strconv.Itoa(i))
	case 2: // long common suffix
		return []byte(strconv.Itoa(i) + strings.Repeat("s", L))
	case 3: // runs of one byte
		return []byte(strings.Repeat(string([]byte{byte(L)}), i))
	case 4: // short binary, likely duplicates
		b := make([]byte, r.IntN(4))
		for j := range b {
			b[j] = byte(pick(r, 0, 0, 1, 255, 128, 'a', 'A', r.IntN(256)))
		}
		return b
	case 5: // little endian counters
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i)<<uint(L%56))
		return b[:]
	case 6: // random
		b := make([]byte, r.IntN(40))
		for j := range b {
			b[j] = byte(r.Uint32())
		}
		return b
	case 8: // equal except for one or two bytes anywhere
		b := make([]byte, max(L, 2))
		for j := range b {
			b[j] = byte('a' + j%7)
		}
		for m := r.Range(1, 2); m > 0; m-- {
			p := pick(r, 0, 1, len(b)/2, len(b)-1, len(b)-2, 7, 8, 9, 15, 16, len(b)-9, len(b)-8, r.IntN(len(b)), r.IntN(len(b)))
			b[max(0, p)%len(b)] ^= byte(pick(r, 1, 128, 32, 1+i%255))
		}
		return b
	case 9: // the same bytes in another order
		b := make([]byte, max(L, 2))
		for j := range b {
			b[j] = "xy"[j&1]
		}
		if r.Chance(0.5) {
			b[0], b[len(b)-1] = 'u', 'v'
		}
		p, q := r.IntN(len(b)), r.IntN(len(b))
		b[p], b[q] = b[q], b[p]
		p = r.IntN(len(b))
		return append(b[p:len(b):len(b)], b[:p]...)
	default: // words with case and repetition
		w := []string{"", "a", "A", "ab", "aB", "AB", "aab", "aabb", "\x00", "\x00\x00", "é", "\xff\xfe", " ", "k", "K"}
		return []byte(w[r.IntN(len(w))] + w[r.IntN(len(w))] + w[r.IntN(len(w))])
	}
}

// genKeys generates a pool of n key specs for a kind.
func genKeys(r R, kind string, n int) []KeySpec {
	keys := make([]KeySpec, 0, n)
	switch keyFamily(kind) {
	case "digit":
		return genDigits(r, n)
	case "int":
		mixed := r.Chance(0.5)
		style := r.IntN(11)
		for i := 0; i < n; i++ {
			if mixed {
				style = r.IntN(11)
			}
			keys = append(keys, KeySpec{I: genInt(r, style, i)})
		}
	case "arr8":
		style := pick(r, 0, 4, 5, 5, 6, 7, 8, 9)
		L := r.IntN(64)
		if style >= 8 {
			L = 8
		}
		for i := 0; i < n; i++ {
			if r.Chance(0.1) {
				style = pick(r, 0, 4, 5, 5, 6, 7)
			}
			keys = append(keys, KeySpec{S: genBytes(r, style, i, L)})
		}
	default:
		mixed := r.Chance(0.4)
		style := r.IntN(10)
		L := pick(r, 1, 7, 8, 15, 16, 31, 32, 55, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300)
		if n <= 40 && r.Chance(0.03) {
			L = pick(r, 500, 512, 1000, 1024, 1025, 2048, 4096, 5000)
			style = 1 + r.IntN(2)
		}
		if n <= 10 && r.Chance(0.001) { // lengths which agree modulo 2^16 and more
			base, unit := pick(r, 0, 1, 4, 100, 65530), 65536
			if n <= 6 && r.Chance(0.05) {
				unit = 1 << 20
			}
			for i := 0; i < n; i++ {
				keys = append(keys, KeySpec{S: []byte(strings.Repeat("h", base+i%3*unit+i/3))})
			}
			return keys
		}
		for i := 0; i < n; i++ {
			if mixed {
				style = r.IntN(10)
			}
			keys = append(keys, KeySpec{S: genBytes(r, style, i, L), I: int64(pick(r, 0, 0, 0, 1, -1, i))})
		}
	}
	return keys
}

func genPrefixLen(r R) int {
	switch pickW(r, []int{30, 25, 17, 14, 7, 7}) {
	case 0:
		return r.IntN(5)
	case 1:
		return r.Range(5, 14)
	case 2:
		return r.Range(15, 18)
	case 3:
		return r.Range(19, 50)
	case 4:
		return r.Range(51, 120)
	default:
		return r.Range(121, maxShared-1)
	}
}

// genDigits generates keys with explicit hash digits: each key shares a chosen
// number of leading digits with an earlier key.
func genDigits(r R, n int) []KeySpec {
	alpha := pick(r, 15, 15, 15, 1, 3, 9, 7)
	share := pick(r, 0.1, 0.4, 0.7, 0.9)
	capL := pick(r, maxShared, maxShared, 60, 20, 8)
	var keys []KeySpec
	for i := 0; i < n; i++ {
		k := KeySpec{I: int64(i)}
		if n > 400 {
			k.D = []uint64{r.Uint64()}
			keys = append(keys, k)
			continue
		}
		L := 0
		if i > 0 && r.Chance(share) {
			L = min(genPrefixLen(r), capL)
		}
		nd := L + 1
		if alpha != 15 {
			nd = L + 12
		}
		k.D = make([]uint64, (nd+15)/16)
		var base *KeySpec
		if i > 0 {
			base = &keys[r.IntN(i)]
		}
		for j := 0; j < len(k.D)*16; j++ {
			var x uint64
			switch {
			case j < L:
				x = digit(base, j)
			case j == L && base != nil:
				x = digit(base, j) ^ uint64(1+r.IntN(15))
			default:
				x = uint64(r.IntN(16)) & uint64(alpha)
			}
			k.D[j/16] |= x << (4 * uint(j%16))
		}
		ok := true
		for j := range keys {
			if lcp(&k, &keys[j]) > maxShared {
				ok = false
				break
			}
		}
		if ok {
			keys = append(keys, k)
		}
	}
	return keys
}

// genSize picks a pool size and a number of operations.
func genSize(r R) (keys, ops int) {
	switch pickW(r, []int{30, 45, 20, 5}) {
	case 0:
		return r.Range(2, 6), r.Range(5, 50)
	case 1:
		return r.Range(7, 40), r.Range(20, 150)
	case 2:
		return r.Range(41, 120), r.Range(60, 300)
	default:
		return r.Range(121, 700), r.Range(100, 300)
	}
}

type weights map[string]int

// genOps generates a history in phases of growing, churning and shrinking.
func genOps(r R, nk, n int, isMap bool, extra weights) []Op {
	var ops []Op
	hot := nk
	if r.Chance(0.3) {
		hot = max(1, nk/4)
	}
	key := func() int {
		if r.Chance(0.7) {
			return r.IntN(hot)
		}
		return r.IntN(nk)
	}
	names := make([]string, 0, len(extra))
	for _, k := range []string{"get", "val", "ptr", "ptrset", "len", "dep", "all", "allstop", "allset", "modread", "mod", "modpanic", "gc", "hold", "hwrite", "nop", "churn", "twin", "copy", "sub", "garbage", "modx", "check"} {
		if extra[k] > 0 {
			names = append(names, k)
		}
	}
	left := n
	for left > 0 {
		phase := r.IntN(5)
		m := min(left, r.Range(3, 40))
		left -= m
		wset, wdel := 50, 20
		switch phase {
		case 0:
			wset, wdel = 90, 5
		case 1:
			wset, wdel = 15, 80
		case 2:
			wset, wdel = 45, 45
		case 3: // bulk
			if r.Chance(0.5) {
				ops = append(ops, Op{O: "setrange", K: r.IntN(nk), N: r.Range(1, nk), V: r.Range(1, 999)})
			} else {
				ops = append(ops, Op{O: "delrange", K: r.IntN(nk), N: r.Range(1, nk), A: r.IntN(4)})
			}
			continue
		case 4:
			if r.Chance(0.3) {
				ops = append(ops, Op{O: "drain", N: r.IntN(3), K: r.IntN(nk)})
				continue
			}
		}
		w := []int{wset, wdel}
		for _, k := range names {
			if (k == "val" || k == "ptr" || k == "ptrset" || k == "allset" || k == "modread" || k == "mod" || k == "modx") && !isMap {
				w = append(w, 0)
				continue
			}
			w = append(w, extra[k])
		}
		for ; m > 0; m-- {
			o := Op{K: key(), A: r.IntN(8)}
			switch i := pickW(r, w); i {
			case 0:
				o.O, o.V = "set", r.Range(0, 999)
			case 1:
				o.O = "del"
			default:
				o.O = names[i-2]
				o.V = r.Range(0, 999)
				o.N = r.IntN(32)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
