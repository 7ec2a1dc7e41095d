package main

import (
	"fmt"
	"math"
	"math/rand/v2"
)

// Long cases: large populations (beyond 2^16 entries) and long histories (beyond
// 2^16 operations) in compact form. The same runner serves several properties,
// which differ in what they check.

type longCheck struct {
	lookups, all, length, dep, twin, held, idle bool
}

// withLong mixes long cases into a generator: one in small is a long history on few
// keys, one in big a large population.
func withLong(prop string, kinds []string, small, big int, gen func(R, string, int) *Case) func(R, string, int) *Case {
	return func(r R, tier string, i int) *Case {
		switch {
		case i%big == big/2:
			return genLong(prop, r, kinds[i/big%len(kinds)], true)
		case i%small == small/3:
			return genLong(prop, r, kinds[i/small%len(kinds)], false)
		}
		return gen(r, tier, i)
	}
}

func genLong(prop string, r R, kind string, big bool) *Case {
	c := &Case{Prop: prop, Kind: kind, Hash: genHash(r), N: map[string]int64{"long": 1, "rs": int64(r.Uint32())}}
	if isMapKind(kind) {
		c.Val = pick(r, "int", "int", "string", "box", "pair")
	}
	if big {
		c.N["n"] = int64(pick(r, r.Range(65000, 70000), r.Range(40000, 100000), r.Range(3000, 40000)))
		c.N["ops"] = int64(r.Range(5000, 40000))
		if c.Hash.Mode != 0 && c.Hash.Mode != 3 {
			c.Hash.Mode, c.Hash.P = 0, 0
		}
		if c.Hash.Mode == 3 {
			c.Hash.P = uint64(pick(r, 7, 14, 11, 13))
		}
	} else {
		c.N["n"] = int64(pick(r, r.Range(2, 8), r.Range(9, 60), r.Range(61, 400)))
		c.N["ops"] = int64(pick(r, r.Range(66000, 140000), r.Range(5000, 66000)))
		if c.N["n"] > 60 && c.Hash.Mode != 0 { // few hash values make operations slow
			c.N["ops"] /= 4
		}
	}
	c.N["style"] = int64(r.IntN(8))
	c.N["L"] = int64(pick(r, 1, 7, 8, 16, 31, 64, 100))
	c.N["period"] = int64(pick(r, 100, 1000, 10000, 70000))
	return c
}

func longKeys(c *Case) []KeySpec {
	n := c.num("n")
	if n < 1 || n > 150000 || c.num("ops") > 200000 || c.num("period") < 1 {
		invalidf("shape")
	}
	if n <= 400 {
		return genKeys(R{rand.New(rand.NewPCG(uint64(c.N["rs"]), 77))}, c.Kind, n)
	}
	return c15Keys(c)
}

func runLong(c *Case, st *Stats, chk longCheck) {
	hs := c.Hash
	keys := longKeys(c)
	r := R{rand.New(rand.NewPCG(uint64(c.N["rs"]), 78))}
	w := newWorld(newC(c.Kind, c.Val, keys), len(keys), nil)
	isMap := w.c.IsMap()
	n := len(keys)
	ops := c.num("ops")
	st.inc("kind:" + c.Kind)
	maxLen, did, deletions := 0, 0, 0
	deep := false

	type hold struct {
		k int
		r Ref
	}
	var held []hold
	check := func() {
		if chk.lookups {
			w.verifyLookups(r.IntN(8), true)
		}
		if chk.all {
			a := w.verifyAll()
			b := w.verifyAll()
			for i := range a {
				if a[i] != b[i] {
					failf("%s: two iterations of the same container differ at position %d of %d", c.Kind, i, len(a))
				}
			}
			if len(a) > 1 { // an early stop
				j, calls := 1+r.IntN(len(a)-1), 0
				w.c.All(func(k int, _ Ref) bool {
					if calls >= j || a[calls] != k {
						failf("%s: an iteration to be stopped after %d of %d calls makes call %d, key #%d", c.Kind, j, len(a), calls+1, k)
					}
					calls++
					return calls < j
				})
				if calls != j {
					failf("%s: an iteration to be stopped after %d of %d calls makes %d calls", c.Kind, j, len(a), calls)
				}
			}
		}
		if chk.length {
			w.verifyLen()
		}
		if chk.dep {
			n, dep := len(w.model), w.c.Dep()
			if n <= 1 && dep != 0 {
				failf("%s: Dep is %v with %d key(s) present", c.Kind, dep, n)
			}
			if keyFamily(c.Kind) == "digit" && n > 0 {
				sum, _ := exactDepths(keys, w.present())
				if want := float64(sum) / float64(n); math.Abs(want-dep) > 1e-9*(1+want) {
					failf("%s: Dep is %v, exact mean depth of the %d keys is %v", c.Kind, dep, n, want)
				}
			}
		}
		for _, h := range held {
			if w.has(h.k) && h.r.Load() != w.model[h.k] {
				failf("%s: a held pointer reads %d, the value of key #%d is %d", c.Kind, h.r.Load(), h.k, w.model[h.k])
			}
		}
	}
	step := func(k, v int, del bool) {
		k = w.c.Class(k)
		if chk.lookups && did%4 == 0 {
			w.verifyKey(k, did&7, did%16 == 0)
		}
		had := w.has(k)
		switch {
		case del:
			w.del(k, v&7)
			if had {
				deletions++
				for i := 0; i < len(held); i++ {
					if held[i].k == k {
						held[i] = held[len(held)-1]
						held = held[:len(held)-1]
						i--
					}
				}
			}
		case isMap && v%4 == 0:
			w.mod(k, v&7, v, true)
		case isMap && v%9 == 0 && had:
			p := w.c.Ptr(k, v&7)
			if p == nil {
				failf("%s: Ptr of present key #%d is nil", c.Kind, k)
			}
			p.Store(w.c.Norm(v))
			w.model[k] = w.c.Norm(v)
		default:
			w.set(k, v&7, v)
		}
		if chk.lookups {
			w.verifyKey(k, did&7, false)
		}
		if chk.length {
			w.verifyLen()
		}
		if chk.held && len(held) > 0 {
			for i := 0; i < 3; i++ {
				h := held[r.IntN(len(held))]
				if h.r.Load() != w.model[h.k] {
					failf("%s: a held pointer reads %d, the value of key #%d is %d", c.Kind, h.r.Load(), h.k, w.model[h.k])
				}
			}
		}
		if chk.held && !del && len(held) < 64 && did%16 == 0 {
			if p := w.c.Ptr(k, 0); p != nil {
				held = append(held, hold{k, p})
			}
		}
		maxLen = max(maxLen, len(w.model))
		deep = deep || did%64 == 0 && w.c.Dep() > 0
		did++
	}
	first := 0
	if r.Chance(0.3) {
		first = r.IntN(n)
	}
	for i := 0; i < n; i++ {
		step((first+i)%n, i%1000, false)
	}
	check()
	for i := 0; i < ops; i++ {
		pd := 35
		if (i/c.num("period"))%2 == 1 {
			pd = 65
		}
		step(r.IntN(n), r.IntN(1000), r.IntN(100) < pd)
		if i%(ops/4+1) == ops/4 {
			check()
		}
	}
	check()
	if chk.idle { // many operations without effect between two snapshots
		recordReps = true
		s := w.snap(isMap && c.Val != "unit")
		for i := 0; i < ops/2; i++ {
			k := w.c.Class(r.IntN(n))
			switch {
			case !w.has(k) && i%3 != 0:
				w.c.Del(k, i&7)
			case w.has(k) && i%3 != 0:
				w.set(k, i&7, w.model[k])
			default:
				w.verifyKey(k, i&7, true)
			}
		}
		s.same(w.snap(isMap && c.Val != "unit"), -1, c.Kind, fmt.Sprintf("a series of %d operations without effect", ops/2))
	}
	left := pick(r, 0, 0, 1, 2, n/3)
	for _, k := range r.Perm(n) {
		if len(w.model) <= left {
			break
		}
		if w.has(w.c.Class(k)) {
			step(k, k%1000, true)
		}
	}
	check()
	for i := 0; i < n; i += 1 + r.IntN(2) {
		step(i, i%1000, false)
	}
	check()
	if chk.twin || chk.dep {
		setHash(hs, true)
		w2 := newWorld(newC(c.Kind, c.Val, keys), n, nil)
		for _, k := range w.cls {
			if w.has(k) {
				w2.set(k, 0, w.model[k])
			}
		}
		if a, b := w.c.Dep(), w2.c.Dep(); math.Abs(a-b) > 1e-9*(1+a) {
			failf("%s: Dep is %v, but %v for a container with the same seed and content built directly", c.Kind, a, b)
		}
		if chk.twin {
			a, b := w.verifyAll(), w2.verifyAll()
			for i := range a {
				if a[i] != b[i] {
					failf("%s: iteration order after a long history differs at position %d of %d from that of a same-seed container built directly", c.Kind, i, len(a))
				}
			}
		}
	}
	st.max("long_len", float64(maxLen))
	st.max("long_ops", float64(did))
	if maxLen > 65536 {
		st.inc("long:over 65536 entries")
	}
	if did > 65536 {
		st.inc("long:over 65536 operations")
	}
	st.Nontrivial = deep && deletions > 0
}

// orLong runs long cases with runLong and all others with run.
func orLong(chk longCheck, run func(*Case, *Stats)) func(*Case, *Stats) {
	return func(c *Case, st *Stats) {
		if c.N["long"] == 1 {
			runLong(c, st, chk)
		} else {
			run(c, st)
		}
	}
}
