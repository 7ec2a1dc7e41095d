package main

import (
	"fmt"
	"math"
)

var plainVariant = []Variant{{Build: "plain", Scale: 1, Proc: 2}}

func allKinds() []string { return append(append([]string{}, mapKinds...), setKinds...) }

func genWorldCase(prop string, r R, kinds []string, extra weights) *Case {
	nk, n := genSize(r)
	mass := r.Chance(0.003)
	if mass {
		nk, n = pick(r, r.Range(701, 1500), r.Range(1501, 5000)), r.Range(5, 50)
	}
	kind := kinds[r.IntN(len(kinds))]
	c := &Case{Prop: prop, Kind: kind, Hash: genHash(r), Keys: genKeys(r, kind, nk)}
	if isMapKind(kind) {
		c.Val = valNames[r.IntN(len(valNames))]
	}
	if mass {
		massHash(&c.Hash, r)
		c.Ops = massOps(r, c, n, extra)
		return c
	}
	stageHash(r, c, 0.08)
	c.Ops = genOps(r, len(c.Keys), n, isMapKind(kind), extra)
	return c
}

// massHash confines a hash regime to those that many keys can have.
func massHash(h *HashCfg, r R) {
	if h.Mode != 0 && h.Mode != 3 {
		h.Mode, h.P = 0, 0
	}
	if h.Mode == 3 {
		h.P = uint64(pick(r, 7, 14, 11, 13))
	}
}

// massOps is a history in which most of many keys are present nearly all the time.
func massOps(r R, c *Case, n int, extra weights) []Op {
	nk := len(c.Keys)
	ops := []Op{{O: "setrange", K: r.IntN(nk), N: nk - pick(r, 0, r.IntN(nk/4)), V: r.Range(1, 999)}}
	for _, o := range genOps(r, nk, n, isMapKind(c.Kind), extra) {
		switch o.O {
		case "drain", "setrange":
			if r.Chance(0.8) {
				continue
			}
		case "delrange":
			if r.Chance(0.8) {
				o.N = min(o.N, r.Range(1, 40))
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func init() {
	lookups := weights{"get": 8, "val": 4, "ptr": 4, "ptrset": 10, "mod": 15, "modread": 5}
	runModel := func(c *Case, st *Stats) {
		w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
		st.inc("kind:" + c.Kind)
		if w.c.IsMap() {
			st.inc("val:" + c.Val)
		}
		st.inc(fmt.Sprint("hashmode:", c.Hash.Mode))
		for i, op := range c.Ops {
			_, changed := w.common(op)
			if !changed {
				continue
			}
			if len(w.cls) <= 120 || i%16 == 0 {
				w.verifyLookups(op.A, i%8 == 0)
			} else {
				w.verifyKey(w.c.Class(op.K), op.A, true)
			}
		}
		w.verifyLookups(0, true)
		st.Nontrivial = st.Class["delete_with_depth"] > 0 && st.Class["insert_below_root"] > 0
	}
	register(&Property{
		ID:  "C01",
		Gen: withLong("C01", mapKinds, 2500, 8000, func(r R, tier string, i int) *Case { return genWorldCase("C01", r, mapKinds, lookups) }),
		Run: orLong(longCheck{lookups: true}, runModel), Quick: 200000, Thorough: 3500000, Variants: plainVariant,
		Rule: "a random history (Set, Mod, Del, writes through Ptr, bulk insert/delete/drain) on a random map family, key pool, value type and hash regime, all pool keys looked up (Get; Val and Ptr periodically) after mutations and compared with a reference map; non-trivial: some insertion collided with an entry and some present key was deleted while entries lay below the root",
	})
	register(&Property{
		ID:  "C02",
		Gen: withLong("C02", setKinds, 2500, 8000, func(r R, tier string, i int) *Case { return genWorldCase("C02", r, setKinds, weights{"get": 10}) }),
		Run: orLong(longCheck{lookups: true}, runModel), Quick: 200000, Thorough: 5000000, Variants: plainVariant,
		Rule: "a random Add/Del history (with bulk insert/delete/drain) on a random set family, key pool and hash regime, membership of all pool keys compared with a reference set after mutations; non-trivial: some insertion collided with an entry and some present key was deleted while entries lay below the root",
	})

	// C03: groups of keys with long common hash prefixes.
	register(&Property{
		ID: "C03",
		Gen: func(r R, tier string, i int) *Case {
			kind := pick(r, allKinds()...)
			if r.Chance(0.35) {
				kind = pick(r, "MapD", "SetD")
			}
			nk := r.Range(2, 24)
			if r.Chance(0.15) {
				nk = r.Range(25, 70)
			}
			if r.Chance(0.003) {
				kind, nk = pick(r, "MapD", "SetD"), r.Range(71, 300)
			}
			c := &Case{Prop: "C03", Kind: kind, Hash: genDeepHash(r), Keys: genKeys(r, kind, nk)}
			if isMapKind(kind) {
				c.Val = pick(r, "int", "string", "box", "int", "pair")
			}
			stageHash(r, c, 0.3)
			n := len(c.Keys)
			ins := "set"
			if isMapKind(kind) && r.Chance(0.4) {
				ins = "mod"
			}
			for rounds := r.Range(1, 4); rounds > 0; rounds-- {
				// insert a permutation, delete (part of) another
				for _, k := range r.Perm(n) {
					o := ins
					if r.Chance(0.1) {
						o = "set"
					}
					c.Ops = append(c.Ops, Op{O: o, K: k, A: r.IntN(8), V: r.Range(1, 999)})
					if r.Chance(0.1) {
						c.Ops = append(c.Ops, Op{O: "del", K: r.IntN(n), A: r.IntN(8)})
					}
				}
				stop := 0
				if r.Chance(0.6) {
					stop = r.IntN(n + 1)
				}
				for i, k := range r.Perm(n) {
					if i < stop {
						continue
					}
					c.Ops = append(c.Ops, Op{O: "del", K: k, A: r.IntN(8)})
					if r.Chance(0.1) {
						c.Ops = append(c.Ops, Op{O: ins, K: r.IntN(n), A: r.IntN(8), V: r.Range(1, 999)})
					}
				}
			}
			return c
		},
		Run: func(c *Case, st *Stats) {
			w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
			st.inc("kind:" + c.Kind)
			st.inc(fmt.Sprint("hashmode:", c.Hash.Mode))
			digits := keyFamily(c.Kind) == "digit"
			maxDep := 0.0
			deep := 0
			for i, op := range c.Ops {
				w.common(op)
				w.verifyLookups(op.A, i%8 == 0)
				w.verifyLen()
				if i%4 == 0 || i == len(c.Ops)-1 {
					w.verifyAll()
				}
				maxDep = math.Max(maxDep, w.c.Dep())
				if digits && i%4 == 0 {
					_, m := exactDepths(c.Keys, w.present())
					deep = max(deep, m)
				}
			}
			st.max("digit_key_depth", float64(deep))
			if deep >= 16 {
				st.inc("depth>=16")
			}
			if deep >= 12 || maxDep >= 12 {
				st.inc("depth>=12")
			}
			if maxDep >= 16 || deep >= 128 {
				st.inc("mean_depth>=16 or depth>=128")
			}
			st.Nontrivial = maxDep >= 4 || deep >= 4
		},
		Quick: 180000, Thorough: 3600000, Variants: plainVariant,
		Rule: "groups of 2..70 keys whose hashes share constructed prefixes (digit keys: chosen prefix lengths 0..237 digits across up to 15 complete hashes; other families: weakened maphash), inserted (Set/Add/Mod) and deleted in random permutations; after each step every pool key, Len and All compared with a model, with a budget on hash computations per operation; non-trivial: mean depth or some key's depth reached at least 4 levels",
	})

	// C04: iteration.
	register(&Property{
		ID: "C04",
		Gen: withLong("C04", allKinds(), 5000, 7500, func(r R, tier string, i int) *Case {
			return genWorldCase("C04", r, allKinds(), weights{"all": 12, "allstop": 14, "allset": 8, "sub": 6, "modpanic": 3, "mod": 4})
		}),
		Run: orLong(longCheck{all: true}, runC04), Quick: 150000, Thorough: 3600000, Variants: plainVariant,
		Rule: "random states of all families; after structural changes and at random points: complete iterations compared with the model (exactly once, right key and value, non-nil pointer equal to Ptr, same order twice), iterations stopped after j entries (exactly j calls, a prefix of the full order), nested and reading iterations, writes through the pointer, panicking callbacks; non-trivial: an iteration over at least two entries of a container with entries below the root, and at least one early stop with 0<j<Len",
	})

	// C05: Len and Dep.
	register(&Property{
		ID: "C05",
		Gen: withLong("C05", allKinds(), 2500, 8000, func(r R, tier string, i int) *Case {
			kinds := allKinds()
			if r.Chance(0.4) {
				kinds = []string{"MapD", "SetD"}
			}
			c := genWorldCase("C05", r, kinds, weights{"len": 2, "dep": 2, "mod": 12, "modread": 4, "modpanic": 3})
			for j := 0; j < len(c.Ops); j += r.Range(10, 60) {
				c.Ops = append(c.Ops[:j], append([]Op{{O: "drain", N: r.IntN(3), K: r.IntN(len(c.Keys)), A: r.IntN(8)}}, c.Ops[j:]...)...)
			}
			return c
		}),
		Run: orLong(longCheck{length: true, dep: true}, runC05), Quick: 200000, Thorough: 5000000, Variants: plainVariant,
		Rule: "random histories with frequent drains; after every operation Len against the model; Dep against the exact mean computed from the hash digits (digit keys) or (all families) against 0 for 0/1 keys, integrality of Dep*Len, equality of depths of the last two keys, the pigeonhole minimum for 16-way branching, the exact mean derived from the depths of all two-key containers of the same seed, and a same-seed twin built directly; non-trivial: Dep was above 0 at some point and some key was deleted after that",
	})

	// C16: no-ops.
	register(&Property{
		ID: "C16",
		Gen: withLong("C16", allKinds(), 4000, 20000, func(r R, tier string, i int) *Case {
			return genWorldCase("C16", r, allKinds(), weights{"nop": 60, "mod": 5})
		}),
		Run: orLong(longCheck{idle: true}, runC16), Quick: 200000, Thorough: 5000000, Variants: plainVariant,
		Rule: "random states of all families; at random points one of all query and no-op operations (Get/Val/Ptr/Has/Len/Dep/Nil/All of present and absent keys, delete of an absent key, re-add, overwrite by Set/Mod/pointer) between two snapshots (Len, Dep, order, values, value addresses) that must be equal up to the overwritten value; non-trivial: at least one no-op delete or lookup of an absent key, and one overwrite/re-add, on a container with entries below the root",
	})
}

func runC04(c *Case, st *Stats) {
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	isMap := w.c.IsMap()
	var last []int      // the order of the last complete iteration
	version := int64(0) // number of insertions and deletions up to then
	full := func() []int {
		order := w.verifyAll()
		if v := st.Class["insert"] + st.Class["delete_present"] + st.Class["mod_absent"]; v != version {
			version, last = v, nil
		}
		for i := range last { // in between: queries, overwrites, stopped and nested iterations, panics
			if order[i] != last[i] {
				failf("%s: the order of iteration has changed though no key was inserted or deleted: %v, %v", c.Kind, last, order)
			}
		}
		last = order
		order2 := w.verifyAll()
		for i := range order {
			if order[i] != order2[i] {
				failf("%s: two iterations of the same container visit keys in different orders: %v, %v", c.Kind, order, order2)
			}
		}
		if len(order) > 1 && w.c.Dep() > 0 {
			st.inc("full_iteration_with_depth")
		}
		return order
	}
	for i, op := range c.Ops {
		switch op.O {
		case "allstop":
			order := full()
			j := 0
			if len(order) > 0 {
				j = 1 + op.N*7919%len(order)
			}
			calls := 0
			w.c.All(func(k int, r Ref) bool {
				calls++
				if calls > j {
					failf("%s: All calls back %d times after the callback returned false at call %d of %d", c.Kind, calls, j, len(order))
				}
				if order[calls-1] != k {
					failf("%s: All visits key #%d at position %d, expected #%d", c.Kind, k, calls, order[calls-1])
				}
				return calls < j
			})
			if calls != j {
				failf("%s: All makes %d calls where %d were expected (stop at %d of %d)", c.Kind, calls, j, j, len(order))
			}
			if j > 0 && j < len(order) {
				st.inc("early_stop")
			}
			if op.A&1 != 0 {
				full()
			}
		case "allset": // write through the pointers during iteration
			if !isMap {
				continue
			}
			n := 0
			w.c.All(func(k int, r Ref) bool {
				if k < 0 || !w.has(k) {
					failf("%s: All visits a key which is not present", c.Kind)
				}
				n++
				v := w.c.Norm(op.V + k)
				r.Store(v)
				w.model[k] = v
				return n < 3+op.N*4
			})
			w.verifyLookups(op.A, true)
			if op.A&1 != 0 {
				full()
			}
			st.inc("write_during_iteration")
		case "sub": // read the container, and iterate again, inside the callback
			order := full()
			n := 0
			w.c.All(func(k int, r Ref) bool {
				n++
				if n%3 == 1 {
					inner := 0
					w.c.All(func(k2 int, r2 Ref) bool {
						if inner >= len(order) || order[inner] != k2 {
							failf("%s: nested iteration differs from the outer order", c.Kind)
						}
						inner++
						return n%2 == 0
					})
				}
				w.verifyKey(k, op.A, true)
				if isMap && w.c.Ptr(k, 0).Addr() != r.Addr() && c.Val != "unit" {
					failf("%s: All passes a pointer for key #%d which differs from Ptr", c.Kind, k)
				}
				return n < 6
			})
			if n != min(6, len(order)) {
				failf("%s: iteration with nested reads makes %d calls, want %d", c.Kind, n, min(6, len(order)))
			}
			full()
			st.inc("nested")
		case "modpanic": // panic inside All
			n := 0
			func() {
				defer func() {
					if e := recover(); e != nil && e != any("stop") {
						panic(e)
					}
				}()
				w.c.All(func(k int, r Ref) bool {
					if n++; n > op.N {
						panic("stop")
					}
					return true
				})
			}()
			full()
			st.inc("panic_in_callback")
		default:
			_, changed := w.common(op)
			if changed && (len(w.model) < 60 || i%8 == 0) {
				full()
			}
		}
	}
	full()
	st.Nontrivial = st.Class["early_stop"] > 0 && st.Class["full_iteration_with_depth"] > 0
}

// minTotalDepth is the least possible sum of depths of n keys in a 16-way trie.
func minTotalDepth(n int) int {
	total, depth, leaves := 0, 0, 16 // all leaves at depth or depth+1
	if n <= 16 {
		return 0
	}
	// widths: at each depth up to 16^(depth+1) slots; turning a slot into a branch adds 15 leaves one level deeper
	full := 16
	for n > full*16 {
		full *= 16
		depth++
	}
	_ = leaves
	// slots at depth: full; each branch replaces one slot at depth by 16 at depth+1
	need := n - full
	branches := (need + 14) / 15
	deeper := branches + need // leaves at depth+1: n - (full - branches)
	total = (full-branches)*depth + deeper*(depth+1)
	return total
}

func runC05(c *Case, st *Stats) {
	hs := c.Hash
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	digits := keyFamily(c.Kind) == "digit"
	deepSeen := false
	check := func(i int) {
		w.verifyLen()
		n, dep := len(w.model), w.c.Dep()
		if math.IsNaN(dep) || math.IsInf(dep, 0) || dep < 0 || dep > 256 {
			failf("%s: Dep is %v with %d keys", c.Kind, dep, n)
		}
		if n <= 1 && dep != 0 {
			failf("%s: Dep is %v with %d key(s) present", c.Kind, dep, n)
		}
		tot := dep * float64(n)
		if math.Abs(tot-math.Round(tot)) > 1e-6*(1+tot) {
			failf("%s: Dep %v times Len %d is not an integral sum of depths", c.Kind, dep, n)
		}
		if n == 2 && int(math.Round(tot))%2 != 0 {
			failf("%s: two keys have different depths (Dep %v)", c.Kind, dep)
		}
		if int(math.Round(tot)) < minTotalDepth(n) {
			failf("%s: Dep %v is below the minimum for %d keys in a 16-way trie", c.Kind, dep, n)
		}
		if digits && (n < 40 || i%8 == 0) {
			sum, m := exactDepths(c.Keys, w.present())
			want := 0.0
			if n > 0 {
				want = float64(sum) / float64(n)
			}
			if math.Abs(want-dep) > 1e-9*(1+want) {
				failf("%s: Dep is %v, exact mean depth of the %d keys is %v", c.Kind, dep, n, want)
			}
			st.max("digit_key_depth", float64(m))
			st.inc("exact_mean_checked")
		}
		if dep > 0 {
			deepSeen = true
		}
	}
	for i, op := range c.Ops {
		if op.O == "modpanic" {
			if w.c.IsMap() {
				func() {
					defer func() {
						if e := recover(); e != any("stop") {
							panic(e)
						}
					}()
					w.c.Mod(op.K, op.A, func(r Ref, ok bool) {
						if r != nil && !r.Nil() && ok {
							k := w.c.Class(op.K)
							w.model[k] = r.Load()
						}
						panic("stop")
					})
				}()
				check(i)
			}
			continue
		}
		before := st.Class["delete_present"]
		if op.O == "setrange" || op.O == "delrange" || op.O == "drain" {
			// check after each elementary step as well
			for j := 0; j < max(op.N, w.n); j++ {
				k := (op.K + j) % w.n
				switch {
				case op.O == "setrange" && j < op.N:
					w.set(k, op.A, op.V+j)
				case op.O == "delrange" && j < op.N:
					w.del(k, op.A)
				case op.O == "drain" && len(w.model) > op.N && j < w.n:
					if kk := w.c.Class(k); w.has(kk) {
						w.del(kk, op.A)
					}
				default:
					continue
				}
				if len(w.model) < 40 || j%8 == 0 {
					check(j)
				}
			}
		} else {
			w.common(op)
		}
		check(i)
		if deepSeen && st.Class["delete_present"] > before {
			st.inc("delete_after_depth")
		}
	}
	// a key's depth is its largest depth among all containers holding it and one other
	// present key; the two-key containers have the same seed
	if ks := w.present(); len(ks) >= 3 && len(ks) <= 12 {
		deepest := make([]float64, len(ks))
		least := math.Inf(1)
		pair := make([][]float64, len(ks))
		for i := range ks {
			pair[i] = make([]float64, len(ks))
		}
		for i := range ks {
			for j := 0; j < i; j++ {
				setHash(hs, true)
				y := newC(c.Kind, c.Val, []KeySpec{c.Keys[ks[i]], c.Keys[ks[j]]})
				y.Set((i+j)%2, i, 1)
				y.Set((i+j+1)%2, j, 1)
				d := y.Dep()
				if y.Len() != 2 || d != math.Trunc(d) || d < 0 {
					failf("%s: a container with two keys has Len %d, Dep %v", c.Kind, y.Len(), d)
				}
				pair[i][j], pair[j][i] = d, d
				deepest[i], deepest[j] = math.Max(deepest[i], d), math.Max(deepest[j], d)
				least = math.Min(least, d)
			}
		}
		sum := 0.0
		for i := range ks {
			sum += deepest[i]
			for j := 0; j < i; j++ {
				for l := 0; l < j; l++ { // the two smallest of three pairwise prefixes are equal
					a, b, c3 := pair[i][j], pair[i][l], pair[j][l]
					if m := math.Min(a, math.Min(b, c3)); a > m && b > m || a > m && c3 > m || b > m && c3 > m {
						failf("%s: the depths %v, %v, %v of three pairs of keys are impossible for common prefixes", c.Kind, a, b, c3)
					}
				}
			}
		}
		if want, dep := sum/float64(len(ks)), w.c.Dep(); math.Abs(want-dep) > 1e-9*(1+want) {
			failf("%s: Dep of %d keys is %v, the exact mean depth according to all pairs of them is %v", c.Kind, len(ks), dep, want)
		}
		if len(ks) >= 10 && c.Hash.Mode == 0 && !digits && least != 0 {
			failf("%s: no two of %d keys are told apart by their first digit", c.Kind, len(ks))
		}
		st.inc("exact_mean_from_pairs")
	}
	// same-seed twin built directly from the content
	if len(w.model) > 1 {
		setHash(hs, true)
		w2 := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), nil)
		for _, k := range w.cls {
			if w.has(k) {
				w2.set(k, 0, w.model[k])
			}
		}
		if a, b := w.c.Dep(), w2.c.Dep(); math.Abs(a-b) > 1e-9*(1+a) {
			failf("%s: Dep is %v, but %v for a container with the same seed and content built directly", c.Kind, a, b)
		}
		st.inc("twin_checked")
	}
	st.Nontrivial = st.Class["delete_after_depth"] > 0
}

type snapshot struct {
	n     uint
	dep   float64
	order []int
	vals  []int
	addr  []uintptr
	reps  []uintptr
}

func (w *world) snap(addrs bool) (s snapshot) {
	s.n, s.dep = w.c.Len(), w.c.Dep()
	w.c.All(func(k int, r Ref) bool {
		s.order = append(s.order, k)
		s.reps = append(s.reps, lastRep)
		if r != nil {
			s.vals = append(s.vals, r.Load())
			if addrs {
				s.addr = append(s.addr, uintptr(r.Addr()))
			}
		}
		if len(s.order) > 4*w.n+16 {
			failf("%s: iteration does not end", w.c.Kind())
		}
		return true
	})
	return
}

// same compares snapshots; the value of key except (if >= 0) may differ.
func (s snapshot) same(t snapshot, except int, kind, what string) {
	if s.n != t.n || s.dep != t.dep {
		failf("%s: %s changed Len/Dep from %d/%v to %d/%v", kind, what, s.n, s.dep, t.n, t.dep)
	}
	if len(s.order) != len(t.order) {
		failf("%s: %s changed the number of visited entries from %d to %d", kind, what, len(s.order), len(t.order))
	}
	for i := range s.order {
		if s.order[i] != t.order[i] {
			failf("%s: %s changed the iteration order at position %d: key #%d, before #%d", kind, what, i, t.order[i], s.order[i])
		}
		if s.vals != nil && s.vals[i] != t.vals[i] && s.order[i] != except {
			failf("%s: %s changed the value of key #%d from %d to %d", kind, what, s.order[i], s.vals[i], t.vals[i])
		}
		if s.addr != nil && s.addr[i] != t.addr[i] {
			failf("%s: %s moved the value of key #%d", kind, what, s.order[i])
		}
		if s.reps[i] != t.reps[i] {
			failf("%s: %s replaced the retained key #%d by another, equal one", kind, what, s.order[i])
		}
	}
}

func runC16(c *Case, st *Stats) {
	recordReps = true
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	isMap := w.c.IsMap()
	addrs := isMap && c.Val != "unit"
	for _, op := range c.Ops {
		if op.O != "nop" {
			w.common(op)
			continue
		}
		k := w.c.Class(op.K)
		depth := w.c.Dep() > 0
		s := w.snap(addrs)
		what, except := "", -1
		switch op.N % 8 {
		case 0:
			what = "Get/Has"
			w.verifyKey(k, op.A, false)
		case 1:
			what = "Val/Ptr"
			w.verifyKey(k, op.A, true)
		case 2:
			what = "Len/Dep/Nil/All"
			w.c.Len()
			w.c.Dep()
			w.c.Nil()
			left := op.V % 7 // stops at this call, never if 0
			w.c.All(func(int, Ref) bool { left--; return left != 0 })
		case 3, 4, 5: // delete of an absent key
			for j := 0; j < w.n && w.has(k); j++ {
				k = w.c.Class((k + 1) % w.n)
			}
			if w.has(k) {
				continue
			}
			what = "Del of an absent key"
			w.c.Del(k, op.A)
			if depth {
				st.inc("noop_delete_with_depth")
			}
		default: // overwrite or re-add of a present key
			for j := 0; j < w.n && !w.has(k); j++ {
				k = w.c.Class((k + 1) % w.n)
			}
			if !w.has(k) {
				continue
			}
			except = k
			v := w.c.Norm(op.V)
			switch {
			case !isMap:
				what = "Add of a present key"
				w.c.Set(k, op.A, 0)
			case op.N&8 != 0:
				what = "overwrite by Mod"
				w.c.Mod(k, op.A, func(r Ref, _ bool) {
					if op.N&16 != 0 {
						r.Store(v)
					} else {
						v = r.Load()
					}
				})
			default:
				what = "overwrite by Set"
				w.c.Set(k, op.A, v)
			}
			if isMap {
				w.model[k] = v
			}
			if depth {
				st.inc("overwrite_with_depth")
			}
		}
		t := w.snap(addrs)
		s.same(t, except, c.Kind, fmt.Sprintf("%s (key #%d)", what, k))
		if except >= 0 {
			w.verifyKey(k, op.A, true)
		}
		st.inc("nop:" + what)
	}
	w.verifyLookups(0, true)
	w.verifyAll()
	st.Nontrivial = st.Class["noop_delete_with_depth"] > 0 && st.Class["overwrite_with_depth"] > 0
}
