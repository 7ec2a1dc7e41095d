package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
)

func init() {
	// C19: space.
	register(&Property{
		ID:  "C19",
		Gen: genC19, Run: runC19, Quick: 4000, Thorough: 150000,
		Variants: []Variant{{Build: "plain", Scale: 1, Proc: 2, Env: []string{"GODEBUG=asyncpreemptoff=1"}}},
		Rule:     "containers of all families with 100..20000 (some to 160000) keys (or chains of colliding keys, or tries whose branches all have f items) after random histories of insertions, deletions and overwrites; the live heap freed by dropping the container is compared with the bytes of the documented layout (root, one entry per key, link arrays in blocks of four 16-byte links) for the exact trie of the keys' digits, or a random trie of the same size, and with a container of the same seed built directly; many containers of 0..19 keys are measured together; non-trivial: keys had been deleted and at least 100 entries (or a chain of at least 50 levels) remained",
		Assume:   []string{"runtime.GC reclaims what is unreachable (the least of several measurements counts)"},
	})
}

func genC19(r R, tier string, i int) *Case {
	kinds := allKinds()
	c := &Case{Prop: "C19", Kind: kinds[i%len(kinds)], Hash: HashCfg{Seed: uint64(r.Int64N(1 << 40))}, N: map[string]int64{}}
	if r.Chance(0.2) {
		c.Kind = pick(r, "MapD", "SetD")
	}
	if isMapKind(c.Kind) {
		c.Val = pick(r, "int", "int", "big")
	}
	n := r.Range(300, 3000)
	if keyFamily(c.Kind) == "digit" {
		n = r.Range(100, 3500)
	}
	if r.Chance(0.1) {
		n = r.Range(3000, 20000)
	}
	large := false
	switch {
	case keyFamily(c.Kind) == "digit" && r.Chance(0.5):
		c.N["chain"] = 1
		c.Keys = genDigits(r, r.Range(2, 60))
	case keyFamily(c.Kind) == "digit" && r.Chance(0.6):
		// every branch has f items, in d levels
		f, d := r.Range(2, 16), 1
		for m := f; m*f <= 4000; m *= f {
			d++
		}
		c.N["fan"], c.N["levels"] = int64(f), int64(d)
		if c.Val == "big" {
			c.Val = "int"
		}
	case keyFamily(c.Kind) != "digit" && r.Chance(0.02):
		// large enough for random tries to have nearly the same size; all branches of a level have about f items
		large = true
		c.N["n"] = int64(4096 * r.Range(10, 40))
		if c.Val == "big" {
			c.Val = "int"
		}
	default:
		c.N["n"] = int64(n)
	}
	c.N["rs"] = int64(r.Uint32())
	if i%17 == 5 {
		c.N["small"], c.N["n"], c.N["chain"], c.N["fan"] = int64(r.Range(150, 400)), int64(r.IntN(20)), 0, 0
		c.N["churn"] = int64(r.IntN(3))
		c.Keys, c.Val = nil, "int"
		if !isMapKind(c.Kind) {
			c.Val = ""
		}
		return c
	}
	if large {
		for m := r.Range(0, 2); m > 0; m-- {
			c.Ops = append(c.Ops, Op{O: pick(r, "delfrac", "refill"), N: r.Range(5, 50)})
		}
		return c
	}
	for m := r.Range(0, 6); m > 0; m-- {
		c.Ops = append(c.Ops, Op{O: pick(r, "delfrac", "delfrac", "refill", "overwrite"), N: r.Range(5, 90)})
	}
	return c
}

// sizeClass rounds up to the allocator's size classes.
func sizeClass(n int) int64 {
	for _, s := range []int{0, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288} {
		if n <= s {
			return int64(s)
		}
	}
	return int64(n + n/6)
}

// entryBytes is the size of an entry: value and key, and what the key owns.
func entryBytes(kind, val string, content int) int64 {
	v := 0
	switch val {
	case "int":
		v = 8
	case "big":
		v = 192
	}
	switch keyFamily(kind) {
	case "int":
		if kind == "MapInt" || kind == "SetInt" {
			return sizeClass(v + 8)
		}
		return sizeClass(v) // the key is stored in the link
	case "arr8":
		return sizeClass(v + 8)
	case "arr64":
		return sizeClass(v + 64)
	case "arrs":
		return sizeClass(v+24) + sizeClass(content)
	case "digit":
		return sizeClass(v + 32)
	}
	k := 16
	switch kind {
	case "BytesMap", "BytesSet", "MapBytes", "SetBytes":
		k = 24
	}
	return sizeClass(v+k) + sizeClass(content)
}

// linkBytes is the size of the link arrays below the root for keys with the given digits.
func linkBytes(keys []int, dig func(k, i int) uint64, depth int) int64 {
	var groups [16][]int
	for _, k := range keys {
		d := dig(k, depth)
		groups[d] = append(groups[d], k)
	}
	c, total := 0, int64(0)
	for _, g := range groups {
		if len(g) > 0 {
			c++
		}
		if len(g) > 1 {
			total += linkBytes(g, dig, depth+1)
		}
	}
	if depth > 0 {
		total += int64((c+3)/4) * 64
	}
	return total
}

func runC19(c *Case, st *Stats) {
	st.inc("kind:" + c.Kind)
	for try := 0; ; try++ {
		setHash(c.Hash, true)
		msg := tryC19(c, st)
		if msg == "" {
			return
		}
		if try == 7 {
			failf("%s", msg)
		}
		st.inc("heap_remeasured")
	}
}

// smallC19 measures many containers of a few keys each.
func smallC19(c *Case, st *Stats) string {
	rng := rand.New(rand.NewPCG(uint64(c.N["rs"]), 191))
	m, n := c.num("small"), c.num("n")
	if m < 100 || m > 1000 || n > 40 {
		invalidf("shape")
	}
	digits := keyFamily(c.Kind) == "digit"
	keysOf := func() []KeySpec {
		keys := make([]KeySpec, max(n, 1))
		for j := range keys {
			keys[j] = KeySpec{I: int64(j) + 5, S: []byte(fmt.Sprint("key-", j, "-...................")[:20])}
			if keyFamily(c.Kind) == "arr8" {
				keys[j].S = []byte{byte(j), 1, 2, 3, 4, 5, 6, 7}
			}
			if digits {
				keys[j].D = []uint64{rng.Uint64()}
			}
		}
		return keys
	}
	xs := make([]C, m)
	empty := make([]C, m)
	pools := make([]any, 0, 2*m)
	model := make([]int, n)
	for j := range model {
		model[j] = j
	}
	var ideal int64
	for i := range xs {
		keys := keysOf()
		empty[i] = zeroC(c.Kind, c.Val, keys)
		setHash(HashCfg{Seed: c.Hash.Seed + uint64(i)<<20}, true)
		xs[i] = newC(c.Kind, c.Val, keys)
		pools = append(pools, xs[i].(interface{ pool() any }).pool(), empty[i].(interface{ pool() any }).pool())
		ideal += 512
		if n > 0 {
			dig := func(k, d int) uint64 { return digit(&keys[k], d) }
			if !digits {
				hs := make([]uint64, n)
				for j := range hs {
					hs[j] = rng.Uint64()
				}
				dig = func(k, d int) uint64 { return hs[k] >> (4 * uint(d&15)) & 15 }
			}
			ideal += linkBytes(model, dig, 0) + int64(n)*entryBytes(c.Kind, c.Val, 20)
		}
	}
	isolated(func() {
		for _, x := range xs {
			for round := 0; round <= c.num("churn"); round++ {
				for _, k := range rng.Perm(n) {
					if x.IsMap() && rng.IntN(2) == 0 {
						x.Mod(k, 0, func(r Ref, _ bool) { r.Store(1 + k) })
					} else {
						x.Set(k, 0, 1+k)
					}
				}
				if round == c.num("churn") {
					break
				}
				for _, k := range rng.Perm(n)[:rng.IntN(n+1)] {
					x.Del(k, 0)
				}
			}
			if x.Len() != uint(n) {
				failf("%s: Len is %d with %d keys present", c.Kind, x.Len(), n)
			}
		}
	})
	drop := func(a []C) int64 {
		h0 := heapLive()
		clear(a)
		d := h0 - heapLive()
		runtime.KeepAlive(a)
		return d
	}
	over := drop(empty) // the harness's own part
	got := drop(xs) - over
	runtime.KeepAlive(pools)
	st.inc("small")
	st.max("small_bytes_over_layout:"+c.Kind, float64(got-ideal)/float64(m))
	st.max(fmt.Sprintf("small_over:%s:%d", c.Kind, n), float64(got-ideal)/float64(m))
	st.Nontrivial = c.num("churn") > 0 && n > 1
	if got > ideal+ideal/33+int64(m)*128+1024 {
		return fmt.Sprintf("%s: %d containers with %d keys each take %d bytes each; the documented layout takes %d", c.Kind, m, n, got/int64(m), ideal/int64(m))
	}
	return ""
}

func tryC19(c *Case, st *Stats) string {
	if c.num("small") > 0 {
		return smallC19(c, st)
	}
	rng := rand.New(rand.NewPCG(uint64(c.N["rs"]), 19))
	keys := c.Keys
	content := rng.IntN(52) + 16 // shorter ones share allocations
	if c.num("n") > 30000 {
		content = 8
	}
	chain := c.num("chain") == 1
	if f := c.num("fan"); f > 0 {
		n := 1
		for i := int64(0); i < int64(c.num("levels")); i++ {
			n *= int(f)
		}
		if f > 16 || n > 5000 || keyFamily(c.Kind) != "digit" {
			invalidf("fan")
		}
		perm := rng.Perm(16)
		keys = make([]KeySpec, n)
		for j := range keys {
			h, q := uint64(0), j
			for l := 0; q > 0 || l < int(c.num("levels")); l++ {
				h |= uint64(perm[q%int(f)]) << (4 * l)
				q /= int(f)
			}
			keys[j].D = []uint64{h}
		}
	} else if !chain {
		n := c.num("n")
		if n < 100 || n > 200000 {
			invalidf("size")
		}
		keys = make([]KeySpec, n)
		for j := range keys {
			keys[j].I = int64(j)*0x10001 + int64(j%3)<<40
			switch keyFamily(c.Kind) {
			case "digit":
				keys[j].D = []uint64{rng.Uint64()}
			case "arr8":
				keys[j].S = []byte{byte(j), byte(j >> 8), byte(j >> 16), 1, 2, 3, 4, byte(j)}
			default:
				l := content
				if keyFamily(c.Kind) == "arrs" {
					l = min(l, 50)
				}
				b := make([]byte, l)
				copy(b, fmt.Sprint(j))
				keys[j].S = b
			}
		}
	} else if len(keys) == 0 {
		invalidf("keys")
	}
	if keyFamily(c.Kind) == "arrs" {
		content = min(content, 50)
	}
	x := newC(c.Kind, c.Val, keys)
	present := make([]bool, len(keys))
	live, deleted := 0, false
	// the history runs on a stack of its own, so that no stale frame holds parts of the container
	isolated(func() {
		set := func(k int) {
			if x.Class(k) != k {
				return
			}
			if v := 1 + k&0xff; x.IsMap() && k%3 == c.num("rs")%3 {
				x.Mod(k, 0, func(r Ref, _ bool) { r.Store(v) })
			} else {
				x.Set(k, 0, v)
			}
			if !present[k] {
				present[k] = true
				live++
			}
		}
		del := func(k int) {
			if x.Class(k) != k {
				return
			}
			x.Del(k, 0)
			if present[k] {
				present[k] = false
				live--
				deleted = true
			}
		}
		for _, k := range rng.Perm(len(keys)) {
			set(k)
		}
		for _, op := range c.Ops {
			for _, k := range rng.Perm(len(keys)) {
				if rng.IntN(100) >= op.N {
					continue
				}
				switch op.O {
				case "delfrac":
					del(k)
				case "refill":
					set(k)
				case "overwrite":
					if present[k] {
						set(k)
					}
				}
			}
		}
	})
	if x.Len() != uint(live) {
		return "" // reported by C05
	}
	var in []int
	for k, p := range present {
		if p {
			in = append(in, k)
		}
	}
	dig := func(k, i int) uint64 { return digit(&keys[k], i) }
	if keyFamily(c.Kind) != "digit" {
		dig = func(k, i int) uint64 {
			h := uint64(k)*0x9e3779b97f4a7c15 + uint64(c.N["rs"])
			h ^= h >> 29
			h *= 0xbf58476d1ce4e5b9
			h ^= h >> 32
			h *= 0x94d049bb133111eb
			h ^= h >> 31
			return h >> (4 * uint(i%16)) & 15
		}
	}
	maxd := 0
	if keyFamily(c.Kind) == "digit" {
		_, maxd = exactDepths(keys, in)
	}
	var ideal int64 = 512
	if live > 0 {
		links := linkBytes(in, dig, 0)
		entry := entryBytes(c.Kind, c.Val, content)
		ideal += links + int64(live)*entry
		st.max("links_bytes_per_key", float64(links)/float64(live))
	}
	pool := x.(interface{ pool() any }).pool() // not part of the container
	h0 := heapLive()
	x = nil
	got := h0 - heapLive()
	runtime.KeepAlive(keys)
	runtime.KeepAlive(pool)
	tiny := c.Kind == "SetInt" || c.Kind == "ArrSet8" || c.Kind == "IntMap" && c.Val == "int"
	if c.num("n") < 30000 && !tiny { // entries of 8 bytes share allocations with unrelated small objects
		// one built directly, with the same seed, has the same structure
		setHash(c.Hash, true)
		x = newC(c.Kind, c.Val, keys)
		isolated(func() {
			for _, k := range in {
				x.Set(k, 0, 1+k&0xff)
			}
		})
		pool = x.(interface{ pool() any }).pool()
		h0 = heapLive()
		x = nil
		twin := h0 - heapLive()
		runtime.KeepAlive(keys)
		runtime.KeepAlive(pool)
		if got > twin+twin/500+256 {
			return fmt.Sprintf("%s (values: %s): after its history a container with %d keys takes %d bytes; one built directly takes %d", c.Kind, c.Val, live, got, twin)
		}
		st.max("bytes_over_twin", float64(got-twin))
		st.inc("twins")
	}
	limit := ideal + ideal/8 + 3072 // the trie itself is random
	if keyFamily(c.Kind) == "digit" {
		limit = ideal + ideal/20 + 1024
	}
	if live >= 30000 && keyFamily(c.Kind) != "digit" {
		limit = ideal + ideal/40
		st.inc("large")
		st.max("permille_over_layout_large:"+c.Kind, 1000*float64(got-ideal)/float64(ideal))
	}
	if got > limit {
		return fmt.Sprintf("%s (values: %s): %d keys take %d bytes; the documented layout takes %d", c.Kind, c.Val, live, got, ideal)
	}
	if live >= 1000 {
		st.max("permille_over_layout:"+c.Kind, 1000*float64(got-ideal)/float64(ideal))
	} else {
		st.max("bytes_over_layout_small:"+c.Kind, float64(got-ideal))
	}
	st.inc("measured")
	st.max("percent_of_limit:"+c.Kind, 100*float64(got)/float64(limit))
	st.Nontrivial = deleted && (live >= 100 || maxd >= 50)
	return ""
}
