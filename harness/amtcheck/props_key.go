package main

import (
	"bytes"
	"fmt"
	"hash/maphash"
	"math"
	"math/rand/v2"

	"github.com/wdamron/amt"
)

func init() {
	register(&Property{
		ID: "C14", Gen: genC14, Run: runC14, Quick: 20000, Thorough: 320000, Variants: plainVariant,
		Rule: "two kinds of cases: (laws) pools of byte/string/integer keys x seeds x iteration counts up to 70000: determinism, agreement of Bytes, String and HashBytes, sensitivity to key, seed and iteration, Equal against content equality, argument not modified; (monitor) random histories of generic containers whose user keys record every Hash and Equal call: one seed per container, iteration 0 first, iteration i only for keys sharing 16*i digits with another key, results against a model in which keys are identical exactly when Equal says so; non-trivial: laws with an iteration of at least 255, or a monitored history that needed iteration 1 or one with keys equal but not identical below the root",
	})
	register(&Property{
		ID: "C15", Gen: genC15, Run: runC15, Quick: 12000, Thorough: 300000, Variants: plainVariant,
		Rule:   "N keys (1..40000) of many shapes under the well-mixed hash, inserted in random, ascending or descending order, followed by churn (delete and re-insert random subsets) and draining; at checkpoints Dep against the expected mean depth of a random 16-ary trie with a tolerance calibrated to the sampling error; every operation's hash computations and key comparisons bounded by a constant; non-trivial: a checkpoint with at least 100 keys after deletions",
		Assume: []string{"the hash is well mixed: hash/maphash is replaced by a deterministic mixing function (user keys: 64 random bits)"},
	})
}

// --- C14 ---

func genC14(r R, tier string, i int) *Case {
	c := &Case{Prop: "C14", N: map[string]int64{}}
	if i%3 != 0 {
		kinds := []string{"MapD", "SetD", "MapD", "SetD", "MapFold", "SetFold", "MapString", "SetString", "MapBytes", "SetBytes", "MapInt", "SetInt"}
		d := genWorldCase("C14", r, kinds, weights{"get": 8, "val": 2, "ptr": 2, "mod": 12, "all": 2})
		d.N = map[string]int64{}
		return d
	}
	c.Kind = "laws"
	c.Hash = HashCfg{Seed: uint64(r.Int64N(1 << 40))}
	c.Keys = genKeys(r, "StringMap", r.Range(2, 10))
	ints := genKeys(r, "IntMap", len(c.Keys))
	for j := range c.Keys {
		c.Keys[j].I = ints[j].I
	}
	iters := []int{0, 0, 1, 1, 2, 3, 4, 7, 8, 15, 16, 31, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1023, 4096}
	if r.Chance(0.03) {
		iters = []int{65534, 65535, 65536, 70000}
	}
	if r.Chance(0.15) { // long keys
		c.Ops = append(c.Ops, Op{O: "long", A: pick(r, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 100000, 300000),
			N: r.IntN(6), V: r.IntN(1 << 20)})
	}
	for j := r.Range(2, 6); j > 0; j-- {
		c.Ops = append(c.Ops, Op{O: "iter", N: iters[r.IntN(len(iters))], V: r.IntN(1 << 20), K: r.IntN(len(c.Keys)), A: r.IntN(4)})
	}
	return c
}

func runC14(c *Case, st *Stats) {
	if !haveInt {
		failf("amt.Int does not satisfy amt.Key[amt.Int]: it cannot be used as the key type of a Map or Set")
	}
	if c.Kind == "laws" {
		runLaws(c, st)
		return
	}
	st.inc("kind:" + c.Kind)
	digits := keyFamily(c.Kind) == "digit"
	if digits {
		monitor = newMonitor()
		defer func() { monitor = nil }()
	}
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	byID := map[int64]*KeySpec{}
	for i := range c.Keys {
		byID[c.Keys[i].I] = &c.Keys[i]
	}
	// step runs one elementary operation on key k and checks the recorded calls
	step := func(k int, what string, f func()) {
		var present []int
		if digits {
			present = w.present()
		}
		if !digits {
			f()
			return
		}
		monitor.begin()
		check := func() { checkHashes(c, st, what, k, byID, present) }
		monitor.onBegin = check // a step may consist of several operations
		f()
		monitor.onBegin = nil
		check()
	}
	for i, op := range c.Ops {
		switch op.O {
		case "setrange", "delrange", "drain":
			for j := 0; j < w.n; j++ {
				k := w.c.Class((op.K + j) % w.n)
				switch {
				case op.O == "setrange" && j < op.N:
					step(k, "insertion", func() { w.set(k, op.A+j, op.V+j) })
				case op.O == "delrange" && j < op.N, op.O == "drain" && len(w.model) > op.N && w.has(k):
					step(k, "deletion", func() { w.del(k, op.A+j) })
				}
			}
		case "all":
			step(-1, "iteration", func() { w.verifyAll() })
		default:
			k := w.c.Class(op.K)
			step(k, op.O, func() { w.common(op) })
		}
		if len(w.cls) < 30 || i%8 == 0 {
			for _, k := range w.cls {
				step(k, "lookup", func() { w.verifyKey(k, op.A+i, i%2 == 0) })
			}
			step(-1, "Len, Dep or iteration", func() { w.verifyLen(); w.c.Dep(); w.verifyAll() })
		}
	}
	if digits {
		st.Nontrivial = st.Class["iteration>=1"] > 0
	} else {
		st.Nontrivial = st.Class["insert_below_root"] > 0 && st.Class["overwrite"] > 0
	}
}

// checkHashes checks the calls of Hash in one operation on key k (-1: on none) of a container with the given keys.
func checkHashes(c *Case, st *Stats, what string, k int, byID map[int64]*KeySpec, present []int) {
	if len(monitor.seeds) > 1 {
		failf("%s: %s uses %d different seeds", c.Kind, what, len(monitor.seeds))
	}
	for id, iters := range monitor.perKey {
		s := byID[id]
		if s == nil {
			failf("%s: %s hashes an unknown key", c.Kind, what)
		}
		if k >= 0 && id == c.Keys[k].I && iters[0] != 0 {
			failf("%s: %s requests iteration %d of its key before iteration 0", c.Kind, what, iters[0])
		}
		top := uint(0)
		for _, x := range iters {
			top = max(top, x)
		}
		if top == 0 {
			continue
		}
		need := 0
		for _, p := range present {
			if c.Keys[p].I != id {
				need = max(need, lcp(s, &c.Keys[p]))
			}
		}
		if k >= 0 && c.Keys[k].I != id {
			need = max(need, lcp(s, &c.Keys[k]))
		}
		if uint(need) < 16*top {
			failf("%s: %s requests iteration %d of a key that shares only %d hash digits (4 bits each) with any other", c.Kind, what, top, need)
		}
		st.inc("iteration>=1")
		if top >= 2 {
			st.inc("iteration>=2")
		}
	}
}

func runLaws(c *Case, st *Stats) {
	n := len(c.Keys)
	if n == 0 {
		invalidf("keys")
	}
	for i := range c.Keys {
		for j := range c.Keys {
			a, b := &c.Keys[i], &c.Keys[j]
			eq := bytes.Equal(a.S, b.S)
			if g := amt.String(a.S).Equal(amt.String(b.S)); g != eq {
				failf("String(%q).Equal(%q) is %v", a.S, b.S, g)
			}
			if g := amt.Bytes(a.S).Equal(mkBytes(b, j)); g != eq {
				failf("Bytes(%q).Equal(%q) is %v", a.S, b.S, g)
			}
			if g := intEqual(a.I, b.I); g != (a.I == b.I) {
				failf("Int(%d).Equal(%d) is %v", a.I, b.I, g)
			}
		}
	}
	type obs struct {
		key  string
		iter uint
		seed uint64
	}
	seen := map[uint64]obs{}
	iseen := map[uint64]obs{}
	one := func(k *KeySpec, sv uint64, iter uint, alt int) {
		seed := maphash.VerifNewSeed(sv)
		maphash.VerifCalls = 0
		maphash.VerifBudget = int64(iter+2)*int64(len(k.S)+16)/8 + 1000
		buf := mkBytes(k, alt)
		h := amt.HashBytes(buf, seed, iter)
		if !bytes.Equal(buf, k.S) {
			failf("HashBytes modifies its argument")
		}
		maphash.VerifCalls = 0
		if g := amt.HashBytes(mkBytes(k, alt+1), seed, iter); g != h {
			failf("HashBytes(%q, seed, %d) is not deterministic", k.S, iter)
		}
		maphash.VerifCalls = 0
		if g := amt.Bytes(buf).Hash(seed, iter); g != h {
			failf("Bytes(%q).Hash(seed, %d) differs from HashBytes", k.S, iter)
		}
		if !bytes.Equal(buf, k.S) {
			failf("Bytes.Hash modifies its receiver")
		}
		maphash.VerifCalls = 0
		if g := amt.String(k.S).Hash(seed, iter); g != h {
			failf("String(%q).Hash(seed, %d) differs from HashBytes", k.S, iter)
		}
		maphash.VerifCalls = 0
		ih := amt.Int(k.I).Hash(seed, iter)
		maphash.VerifCalls = 0
		if amt.Int(k.I).Hash(seed, iter) != ih {
			failf("Int(%d).Hash(seed, %d) is not deterministic", k.I, iter)
		}
		if len(k.S) > 0 { // all iterations over the empty key are the same bytes
			o := obs{string(k.S), iter, sv}
			if p, ok := seen[h]; ok && p != o && (p.key == o.key || p.iter == o.iter) {
				failf("HashBytes: %q (iteration %d, seed %d) and %q (iteration %d, seed %d) hash equally", o.key, o.iter, o.seed, p.key, p.iter, p.seed)
			}
			seen[h] = o
		}
		o := obs{fmt.Sprint(k.I), iter, sv}
		if p, ok := iseen[ih]; ok && p != o {
			failf("Int: %s (iteration %d, seed %d) and %s (iteration %d, seed %d) hash equally", o.key, o.iter, o.seed, p.key, p.iter, p.seed)
		}
		iseen[ih] = o
		st.inc("law_evaluations")
		if iter >= 255 {
			st.inc("iteration>=255")
		}
	}
	long := func(op Op) {
		if op.A < 1 || op.A > 1<<20 || op.N > 10 {
			invalidf("long key")
		}
		r := rand.New(rand.NewPCG(uint64(op.V), 14))
		b := make([]byte, op.A)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		sv := uint64(op.V) + 77
		seed := maphash.VerifNewSeed(sv)
		maphash.VerifBudget = 0
		h := amt.HashBytes(b, seed, uint(op.N))
		if amt.Bytes(b).Hash(seed, uint(op.N)) != h {
			failf("Bytes.Hash and HashBytes differ for a key of %d bytes, iteration %d", op.A, op.N)
		}
		if amt.String(b).Hash(seed, uint(op.N)) != h {
			failf("String.Hash and HashBytes differ for a key of %d bytes, iteration %d", op.A, op.N)
		}
		if !amt.Bytes(b).Equal(freshBytes(b)) {
			failf("Bytes.Equal is false for equal keys of %d bytes", op.A)
		}
		variant := func(d []byte, what string) {
			if amt.Bytes(b).Equal(d) || amt.String(b).Equal(amt.String(d)) {
				failf("Equal is true for keys of %d bytes that differ (%s)", op.A, what)
			}
			if amt.HashBytes(d, seed, uint(op.N)) == h || amt.Bytes(d).Hash(seed, uint(op.N)) == h || amt.String(d).Hash(seed, uint(op.N)) == h {
				failf("keys of %d bytes that differ (%s) hash equally, iteration %d", op.A, what, op.N)
			}
		}
		for _, at := range []int{0, r.IntN(op.A), r.IntN(op.A), r.IntN(op.A), op.A / 2, op.A - 1} {
			d := freshBytes(b)
			d[at] ^= 1 << r.IntN(8)
			variant(d, fmt.Sprint("byte ", at))
		}
		variant(b[:op.A-1], "last byte removed")
		variant(append(freshBytes(b), 0), "a zero byte appended")
		for it := uint(0); it < 4; it++ {
			if it != uint(op.N) && amt.HashBytes(b, seed, it) == h {
				failf("HashBytes of a key of %d bytes is the same for iterations %d and %d", op.A, it, op.N)
			}
		}
		st.inc("long_key_evaluations")
	}
	for _, op := range c.Ops {
		if op.N < 0 || op.N > 1<<17 {
			invalidf("iteration")
		}
		if op.O == "long" {
			long(op)
			continue
		}
		k := &c.Keys[op.K%n]
		sv := uint64(op.V)*0x9e3779b97f4a7c15 + 1
		it := uint(op.N)
		one(k, sv, it, op.A)
		one(k, sv, it+1, op.A)
		if it > 0 {
			one(k, sv, it-1, op.A)
		}
		if it < 600 {
			for j := range c.Keys {
				one(&c.Keys[j], sv, it, op.A)
			}
			one(k, sv+12345, it, op.A)
			one(k, sv, 0, op.A)
			if it >= 256 {
				one(k, sv, it-256, op.A)
			}
		}
	}
	st.Nontrivial = st.Class["iteration>=255"] > 0
}

// --- C15 ---

func genC15(r R, tier string, i int) *Case {
	kinds := allKinds()
	c := &Case{Prop: "C15", Kind: kinds[i%len(kinds)], Hash: HashCfg{Seed: uint64(r.Int64N(1 << 40))}, N: map[string]int64{}}
	var n int
	switch pickW(r, []int{15, 30, 35, 16, 4}) {
	case 0:
		n = r.Range(1, 40)
	case 1:
		n = r.Range(41, 400)
	case 2:
		n = r.Range(401, 3000)
	case 3:
		n = r.Range(3001, 10000)
	default:
		n = r.Range(10001, 40000)
	}
	c.N["n"] = int64(n)
	c.N["style"] = int64(r.IntN(8))
	c.N["L"] = int64(pick(r, 1, 7, 8, 16, 31, 55, 64, 100, 128, 200))
	c.N["rs"] = int64(r.Uint32())
	c.N["order"] = int64(r.IntN(4))
	for m := r.Range(0, 6); m > 0; m-- {
		c.Ops = append(c.Ops, Op{O: pick(r, "delfrac", "delfrac", "refill", "drainto", "lookup"), N: r.Range(1, 99), A: r.IntN(4)})
	}
	return c
}

// c15Keys returns n pairwise different key specs of a shape.
func c15Keys(c *Case) []KeySpec {
	r := R{rand.New(rand.NewPCG(uint64(c.N["rs"]), 15))}
	n, style, L := c.num("n"), c.num("style"), c.num("L")
	if n < 1 || n > 150000 || style < 0 || style > 7 || L < 1 || L > 300 {
		invalidf("shape")
	}
	keys := make([]KeySpec, 0, n)
	seen := make(map[string]bool, n)
	fam := keyFamily(c.Kind)
	for i := 0; len(keys) < n && i < 4*n+64; i++ {
		var k KeySpec
		var id string
		switch fam {
		case "digit":
			k = KeySpec{I: int64(i), D: []uint64{r.Uint64()}}
			id = fmt.Sprint(i)
		case "int":
			k.I = genInt(r, style, i)
			id = fmt.Sprint(k.I)
		case "arr8":
			var b [8]byte
			copy(b[:], genBytes(r, []int{5, 0, 5, 5, 6, 5, 6, 0}[style], i, L))
			k.S = b[:]
			id = string(k.S)
		default:
			st := style
			if st == 3 { // runs: quadratic size
				st = 1
			}
			if (st == 4 || st == 7) && i > 200 {
				st = 6
			}
			if st == 2 && (fam == "arr64" || fam == "arrs") {
				st = 1
			}
			k.S = genBytes(r, st, i, L)
			id = fold(string(k.S))
			if fam == "arr64" || fam == "arrs" {
				id = string(kcA64.mk(&k, 0).tail(fam))
			}
		}
		if !seen[id] {
			seen[id] = true
			keys = append(keys, k)
		}
	}
	return keys
}

func (a A64) tail(fam string) []byte {
	if fam == "arrs" {
		return bytes.TrimRight(a[:], "\x00")
	}
	return a[:]
}

// expectedDep is the mean depth of n keys with uniformly random digits.
func expectedDep(n int) float64 {
	e, p := 0.0, 1.0
	for d := 1; d < 40; d++ {
		p /= 16
		t := 1 - math.Exp(float64(n-1)*math.Log1p(-p))
		e += t
		if t < 1e-12 {
			break
		}
	}
	return e
}

// depTolerance bounds the sampling error of the mean depth.
func depTolerance(n int) (lo, hi float64) {
	s := math.Sqrt(float64(n))
	return 0.02 + 3.5/s, 0.02 + 7/s
}

const maxHashCalls, maxEqualCalls = 48, 48

func runC15(c *Case, st *Stats) {
	keys := c15Keys(c)
	st.inc("kind:" + c.Kind)
	digits := keyFamily(c.Kind) == "digit"
	if digits {
		monitor = newMonitor()
		defer func() { monitor = nil }()
	}
	r := rand.New(rand.NewPCG(uint64(c.N["rs"]), 16))
	x := newC(c.Kind, "int", keys)
	n := len(keys)
	present := make([]bool, n)
	live := 0
	blocks := 4
	for i := range keys {
		blocks = max(blocks, 4+len(keys[i].S)/32)
	}
	deleted := false
	// the costs of the operations on one key in an otherwise empty container; with any
	// number of keys they may not be much larger
	type costs struct{ ins, get, del, eq int }
	var base map[int]costs
	var unit costs
	measure := func() (int, int) {
		if digits {
			return monitor.calls, monitor.equals
		}
		return int(maphash.VerifCalls), 0
	}
	sampled := map[int]bool{}
	for j := 0; j < 24; j++ {
		sampled[r.IntN(n)] = true
	}
	base = make(map[int]costs, len(sampled))
	var sample []int
	for k := 0; k < n; k++ {
		if !sampled[k] {
			continue
		}
		var b costs
		y := newC(c.Kind, "int", keys[k:k+1])
		y.Set(0, 0, 1)
		b.ins, _ = measure()
		y.Get(0, 0)
		b.get, b.eq = measure()
		y.Del(0, 0)
		b.del, _ = measure()
		base[k] = b
		sample = append(sample, k)
		unit.ins, unit.get, unit.del = max(unit.ins, b.ins), max(unit.get, b.get), max(unit.del, b.del)
	}
	// constant checks that an operation costs at most twice the cost for a single key plus two hashes of a key
	constant := func(k int, what string, f func(costs) int) {
		b, ok := base[k]
		if !ok {
			return
		}
		calls, equals := measure()
		if lim := 2*f(b) + 2*max(unit.ins, unit.get, unit.del); calls > lim {
			failf("%s: %s of key #%d among %d keys takes %d hash computations, with no other key %d", c.Kind, what, k, live, calls, f(b))
		}
		if digits && equals > 2*b.eq+2 {
			failf("%s: %s of key #%d among %d keys takes %d key comparisons, a lookup with no other key %d", c.Kind, what, k, live, equals, b.eq)
		}
		st.inc("cost_compared_with_single_key")
	}
	cost := func(what string) {
		calls, equals := int(maphash.VerifCalls), 0
		limit := maxHashCalls * blocks
		if digits {
			calls, equals, limit = monitor.calls, monitor.equals, maxHashCalls
			st.max("equal_calls", float64(equals))
		}
		st.max("hash_calls", float64(calls))
		if calls > limit || equals > maxEqualCalls {
			failf("%s: %s with %d keys takes %d hash computations and %d key comparisons", c.Kind, what, live, calls, equals)
		}
	}
	isMap := x.IsMap()
	looks := 0
	look := func(k int, then func(what string)) {
		what := "lookup"
		switch looks++; {
		case isMap && looks%4 == 1:
			x.Val(k, 0)
			what = "Val"
		case isMap && looks%4 == 2:
			x.Ptr(k, 0)
			what = "Ptr"
		case isMap && looks%4 == 3 && present[k]:
			x.Mod(k, 0, func(Ref, bool) {})
			what = "Mod"
		default:
			x.Get(k, 0)
		}
		then(what)
		st.inc("lookup:" + what)
	}
	check := func() {
		for _, k := range sample {
			look(k, func(what string) { constant(k, what, func(b costs) int { return b.get }) })
			if present[k] {
				x.Set(k, 0, k&1023)
				constant(k, "overwriting", func(b costs) int { return b.ins })
			} else {
				x.Del(k, 0)
				constant(k, "deletion of a missing key", func(b costs) int { return b.del })
			}
		}
		dep := x.Dep()
		if x.Len() != uint(live) {
			return // reported by C05
		}
		e := expectedDep(live)
		lo, hi := depTolerance(live)
		if live >= 2 {
			st.max("deviation_above_permille_of_tolerance", 1000*(dep-e)/hi)
			st.max("deviation_below_permille_of_tolerance", 1000*(e-dep)/lo)
		}
		if live >= 2 && (dep > e+hi || dep < e-lo) {
			failf("%s: mean depth of %d keys is %.4f, expected %.4f (-%.4f, +%.4f)", c.Kind, live, dep, e, lo, hi)
		}
		if live < 2 && dep != 0 {
			failf("%s: mean depth of %d keys is %v", c.Kind, live, dep)
		}
		st.inc("checkpoints")
		if live >= 100 && deleted {
			st.inc("checkpoints_after_deletions")
		}
		if live >= 1000 {
			st.inc("checkpoints>=1000_keys")
		}
	}
	ins := func(k int) {
		what := "insertion"
		if isMap && (k+looks)%2 == 0 {
			x.Mod(k, 0, func(r Ref, _ bool) { r.Store(k & 1023) })
			what = "insertion by Mod"
		} else {
			x.Set(k, 0, k&1023)
		}
		cost(what)
		constant(k, what, func(b costs) int { return b.ins })
		if !present[k] {
			present[k] = true
			live++
		}
	}
	del := func(k int) {
		x.Del(k, 0)
		cost("deletion")
		constant(k, "deletion", func(b costs) int { return b.del })
		if present[k] {
			present[k] = false
			live--
			deleted = true
		}
	}
	perm := r.Perm(n)
	switch c.num("order") {
	case 0:
		for i := range perm {
			perm[i] = i
		}
	case 1:
		for i := range perm {
			perm[i] = n - 1 - i
		}
	}
	next := 2
	for i, k := range perm {
		ins(k)
		if i+1 == next {
			check()
			next = next*2 + i%3
		}
	}
	check()
	for _, op := range c.Ops {
		switch op.O {
		case "delfrac":
			for k := 0; k < n; k++ {
				if r.IntN(100) < op.N {
					del(k)
				}
			}
		case "refill":
			for _, k := range r.Perm(n) {
				if !present[k] && r.IntN(100) < op.N {
					ins(k)
				}
			}
		case "drainto":
			for _, k := range r.Perm(n) {
				if present[k] && live > n*op.N/400 {
					del(k)
				}
			}
		case "lookup":
			for k := 0; k < n; k++ {
				look(k, cost)
			}
		}
		check()
	}
	st.max("n", float64(n))
	st.Nontrivial = st.Class["checkpoints_after_deletions"] > 0
}
