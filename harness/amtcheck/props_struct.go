package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/wdamron/amt"
)

func init() {
	// C06: two histories, one content.
	register(&Property{
		ID: "C06",
		Gen: withLong("C06", allKinds(), 5000, 10000, func(r R, tier string, i int) *Case {
			kinds := allKinds()
			if r.Chance(0.3) {
				kinds = []string{"MapD", "SetD"}
			}
			c := genWorldCase("C06", r, kinds, weights{"mod": 12})
			c.N = map[string]int64{"perm": int64(r.Uint32()), "via": int64(r.IntN(4)), "extra": int64(r.IntN(101))}
			// the operations are spread over the two histories
			h := 0
			for j := range c.Ops {
				if r.Chance(0.15) {
					h = 1 - h
				}
				c.Ops[j].H = h
				if r.Chance(0.03) {
					c.Ops[j].O = "sync"
				}
			}
			return c
		}),
		Run: orLong(longCheck{twin: true}, runC06), Quick: 200000, Thorough: 5000000, Variants: plainVariant,
		Rule: "two containers of one family with the same hash seed go through different random histories; at random points and at the end the second is brought to the content of the first (in a random order of deletions, insertions and overwrites, optionally over a detour that inserts and deletes other keys) and a third is built directly in another order; Len, Dep and the iteration order of all three must be equal; non-trivial: at a comparison Dep was above 0, at least two keys were present, and both histories had deleted a present key below the root or overwritten",
	})

	// C07: Mod.
	register(&Property{
		ID: "C07",
		Gen: func(r R, tier string, i int) *Case {
			kinds := mapKinds
			if r.Chance(0.3) {
				kinds = []string{"MapD"}
			}
			return genWorldCase("C07", r, kinds, weights{"modx": 60})
		},
		Run: runC07, Quick: 150000, Thorough: 3600000, Variants: plainVariant,
		Rule: "random map states; Mod of present, absent and colliding keys with callbacks that read every other key (Get/Val/Ptr), write, do nothing, panic before or after reading and writing; number of calls, flag, pointer (that of the stored value) and value against a model, and the whole map against the model afterwards; non-trivial: a Mod of an absent key that collides with an entry whose callback read other keys or panicked, and a Mod of a present key",
	})

	// C08: held pointers.
	register(&Property{
		ID: "C08",
		Gen: withLong("C08", mapKinds, 3000, 20000, func(r R, tier string, i int) *Case {
			kinds := mapKinds
			if r.Chance(0.2) {
				kinds = []string{"MapD"}
			}
			c := genWorldCase("C08", r, kinds, weights{"hold": 35, "hwrite": 25, "mod": 8, "ptrset": 5, "gc": 1})
			if c.Val == "unit" {
				c.Val = "int"
			}
			return c
		}),
		Run: orLong(longCheck{held: true}, runC08), Quick: 120000, Thorough: 2400000, Variants: plainVariant,
		Rule: "random histories that hold value pointers obtained from Ptr, All and Mod; after operations every held pointer of a present key is read, compared with Ptr and written through; pointers of deleted keys must not coincide with the storage of any entry and writes through them must change nothing; non-trivial: a pointer was held across an insertion below the root and across a delete of another key with depth, and at least one stale pointer existed",
	})

	// C09: copies and independence.
	register(&Property{
		ID:  "C09",
		Gen: genC09, Run: runC09, Quick: 150000, Thorough: 4000000, Variants: plainVariant,
		Rule: "2..4 containers of mixed families (distinct containers of one family included, some with maps as values), each used through several copies; operations are applied through random copies, also nested inside All and Mod callbacks of another container and inside key methods (Hash, Equal, KeyBytes) called by an operation on another container; one model per container, compared through every copy; non-trivial: at least one nested mutation, at least two copies of one container used for mutations, and Dep above 0",
	})

	// C10: zero values.
	register(&Property{
		ID: "C10",
		Gen: func(r R, tier string, i int) *Case {
			kinds := allKinds()
			c := &Case{Prop: "C10", Kind: kinds[i%len(kinds)], Hash: genHash(r)}
			c.Keys = genKeys(r, c.Kind, r.Range(2, 12))
			if isMapKind(c.Kind) {
				c.Val = valNames[i/len(kinds)%len(valNames)]
			}
			for n := r.Range(4, 40); n > 0; n-- {
				o := Op{K: r.IntN(len(c.Keys)), A: r.IntN(8), V: r.Range(1, 999), N: r.IntN(32)}
				o.O = pick(r, "set", "set", "del", "z-nil", "z-len", "z-dep", "z-val", "z-get", "z-ptr", "z-set", "z-mod", "z-del", "z-all", "z-copy", "fresh")
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: runC10, Quick: 100000, Thorough: 2000000, Variants: plainVariant,
		Rule: "every container type x every value type in turn: random sequences of method calls on the zero value (and copies of it) mixed with operations on initialized containers of the same type; results and panics against the specification table, callbacks never run, the initialized container stays equal to its model; containers looked up with Val in a map of containers; non-trivial: at least one panicking and one answering method was called on the zero value between two mutations of the live container",
	})
}

func (w *world) sameStructure(o *world, what string) {
	if a, b := w.c.Len(), o.c.Len(); a != b {
		failf("%s: Len %d vs %d for the same content (%s)", w.c.Kind(), a, b, what)
	}
	if a, b := w.c.Dep(), o.c.Dep(); math.Abs(a-b) > 1e-9*(1+a) {
		failf("%s: Dep %v vs %v for the same seed and content (%s)", w.c.Kind(), a, b, what)
	}
	a, b := w.snap(false), o.snap(false)
	if len(a.order) != len(b.order) {
		failf("%s: iterations of %d vs %d entries for the same content (%s)", w.c.Kind(), len(a.order), len(b.order), what)
	}
	for i := range a.order {
		if a.order[i] != b.order[i] {
			failf("%s: iteration order differs for the same seed and content (%s): %v vs %v", w.c.Kind(), what, a.order, b.order)
		}
	}
}

func runC06(c *Case, st *Stats) {
	mk := func(s *Stats) *world {
		h := c.Hash
		setHash(h, true)
		return newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), s)
	}
	st.inc("kind:" + c.Kind)
	sts := [2]*Stats{{Class: map[string]int64{}}, {Class: map[string]int64{}}}
	w := [2]*world{mk(sts[0]), mk(sts[1])}
	rng := rand.New(rand.NewPCG(uint64(c.N["perm"]), 77))
	nontrivial := false
	sync := func() {
		a, b := w[0], w[1]
		if rng.IntN(2) == 1 {
			a, b = b, a
		}
		// bring b to the content of a
		detour := func() {
			var ins []int
			for _, k := range b.cls {
				if !b.has(k) && rng.IntN(100) < c.num("extra") {
					ins = append(ins, k)
				}
			}
			rng.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
			for _, k := range ins {
				b.set(k, rng.IntN(8), 1)
			}
		}
		if c.num("via")&1 != 0 {
			detour()
		}
		perm := rng.Perm(len(b.cls))
		for _, i := range perm {
			k := b.cls[i]
			switch {
			case !a.has(k) && b.has(k):
				b.del(k, rng.IntN(8))
			case a.has(k) && (!b.has(k) || b.model[k] != a.model[k] || rng.IntN(4) == 0):
				if b.c.IsMap() && rng.IntN(3) == 0 {
					b.mod(k, rng.IntN(8), a.model[k], true)
				} else {
					b.set(k, rng.IntN(8), a.model[k])
				}
			}
		}
		if c.num("via")&2 != 0 {
			detour()
			perm = rng.Perm(len(b.cls))
			for _, i := range perm {
				if k := b.cls[i]; !a.has(k) && b.has(k) {
					b.del(k, rng.IntN(8))
				}
			}
		}
		a.sameStructure(b, "two histories")
		d := mk(nil)
		perm = rng.Perm(len(a.cls))
		for _, i := range perm {
			if k := a.cls[i]; a.has(k) {
				d.set(k, 0, a.model[k])
			}
		}
		a.sameStructure(d, "history vs direct construction")
		st.inc("comparisons")
		if len(a.model) >= 2 && a.c.Dep() > 0 {
			st.inc("comparisons_with_depth")
			f := func(s *Stats) bool { return s.Class["delete_with_depth"] > 0 }
			if f(sts[0]) || f(sts[1]) {
				nontrivial = true
			}
		}
	}
	for i, op := range c.Ops {
		if op.O == "sync" {
			sync()
			continue
		}
		ww := w[op.H&1]
		ww.common(op)
		_ = i
	}
	sync()
	for _, s := range sts {
		for k, v := range s.Class {
			st.add(k, int(v))
		}
	}
	st.Nontrivial = nontrivial
}

type stopPanic struct{}

func runC07(c *Case, st *Stats) {
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	st.inc("val:" + c.Val)
	for i, op := range c.Ops {
		if op.O != "modx" {
			w.common(op)
			continue
		}
		k := w.c.Class(op.K)
		want, has := w.model[k]
		write, doPanic, reads := op.N&1 != 0, op.N&6 == 6, op.N&8 != 0
		readAfterWrite := op.N&16 != 0
		v := w.c.Norm(op.V)
		depBefore := w.c.Dep() * float64(w.c.Len())
		calls := 0
		left := want
		var stored Ref
		if has && c.Val != "unit" {
			stored = w.c.Ptr(k, op.A)
		}
		readOthers := func() {
			n := 0
			for j := range w.cls {
				k2 := w.cls[(op.K+j)%len(w.cls)]
				if k2 == k {
					continue
				}
				w.verifyKey(k2, op.A, n%4 == 0)
				if n++; n > 40 {
					break
				}
			}
		}
		panicked := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(stopPanic); !ok {
						panic(e)
					}
					panicked = true
				}
			}()
			w.c.Mod(k, op.A, func(r Ref, ok bool) {
				calls++
				if calls > 1 {
					failf("%s: Mod calls its callback more than once", c.Kind)
				}
				if ok != has {
					failf("%s: Mod of key #%d passes %v, key present: %v", c.Kind, k, ok, has)
				}
				if r.Nil() {
					failf("%s: Mod passes a nil pointer", c.Kind)
				}
				if got := r.Load(); got != want {
					failf("%s: Mod of key #%d (present %v) passes value %d, want %d", c.Kind, k, has, got, want)
				}
				if stored != nil && stored.Addr() != r.Addr() {
					failf("%s: Mod of present key #%d passes a pointer to something else than the stored value", c.Kind, k)
				}
				if reads && !readAfterWrite {
					readOthers()
				}
				if write {
					r.Store(v)
					left = v
				}
				if reads && readAfterWrite {
					readOthers()
				}
				if got := r.Load(); got != left {
					failf("%s: value under modification of key #%d changed from %d to %d while other keys were read", c.Kind, k, left, got)
				}
				if doPanic {
					panic(stopPanic{})
				}
			})
		}()
		if calls != 1 {
			failf("%s: Mod of key #%d calls its callback %d times", c.Kind, k, calls)
		}
		if panicked != doPanic {
			failf("%s: a panic of the Mod callback does not reach the caller of Mod", c.Kind)
		}
		switch {
		case !doPanic:
			w.model[k] = left
		case has:
			// the callback may have changed the present key's value before it panicked
			if got, ok := w.c.Get(k, 0); ok && (got == want || got == left) {
				w.model[k] = got
			}
		}
		w.verifyLen()
		if len(w.cls) <= 60 || i%4 == 0 {
			w.verifyLookups(op.A, i%4 == 0)
			w.verifyAll()
		} else {
			w.verifyKey(k, op.A, true)
		}
		collides := !has && !doPanic && w.c.Dep()*float64(w.c.Len()) > depBefore+0.5
		switch {
		case has:
			st.inc("mod_present")
		case collides:
			st.inc("mod_absent_below_root")
			if reads {
				st.inc("mod_colliding_reads")
			}
		case doPanic:
			st.inc("mod_absent_panic")
			if depBefore > 0 {
				st.inc("mod_absent_panic_with_depth")
			}
		default:
			st.inc("mod_absent_at_root")
		}
	}
	w.verifyLookups(0, true)
	w.verifyAll()
	st.Nontrivial = st.Class["mod_present"] > 0 && (st.Class["mod_colliding_reads"] > 0 || st.Class["mod_absent_panic_with_depth"] > 0)
}

func runC08(c *Case, st *Stats) {
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	st.inc("val:" + c.Val)
	type heldPtr struct {
		r   Ref
		age int64
	}
	held := map[int][]heldPtr{}
	type stalePtr struct {
		r Ref
		k int
	}
	var stale []stalePtr
	events := func() int64 { return st.Class["insert_below_root"]<<20 + st.Class["delete_with_depth"] }
	retire := func() {
		for k, hs := range held {
			if !w.has(k) {
				for _, h := range hs {
					if len(stale) < 64 {
						stale = append(stale, stalePtr{h.r, k})
					}
				}
				delete(held, k)
			}
		}
	}
	hold := func(k int, r Ref) {
		if len(held[k]) < 4 {
			held[k] = append(held[k], heldPtr{r, events()})
		}
	}
	check := func(deep bool) {
		retire()
		for _, k := range w.cls {
			for _, h := range held[k] {
				if got := h.r.Load(); got != w.model[k] {
					failf("%s: a held pointer for key #%d reads %d, the value is %d", c.Kind, k, got, w.model[k])
				}
				p := w.c.Ptr(k, 0)
				if p == nil {
					failf("%s: key #%d is present but Ptr is nil", c.Kind, k)
				}
				if p.Addr() != h.r.Addr() {
					failf("%s: Ptr of key #%d differs from a pointer obtained earlier", c.Kind, k)
				}
				if e := events(); e>>20 > h.age>>20 && e&0xFFFFF > h.age&0xFFFFF {
					st.inc("held_across_split_and_delete")
				}
			}
		}
		if deep && len(stale) > 0 {
			st.inc("stale_checked")
			live := map[uintptr]int{}
			for _, k := range w.cls {
				if p := w.c.Ptr(k, 0); p != nil {
					if j, dup := live[uintptr(p.Addr())]; dup {
						failf("%s: keys #%d and #%d share one value", c.Kind, j, k)
					}
					live[uintptr(p.Addr())] = k
				}
			}
			for i := range stale {
				s := &stale[i]
				if k, ok := live[uintptr(s.r.Addr())]; ok {
					failf("%s: the pointer of deleted key #%d aliases the value of present key #%d", c.Kind, s.k, k)
				}
			}
		}
	}
	for i, op := range c.Ops {
		k := w.c.Class(op.K)
		switch op.O {
		case "gc":
			runGC()
		case "hold":
			switch op.N % 4 {
			case 0, 1:
				if p := w.c.Ptr(k, op.A); p != nil {
					hold(k, p)
				}
			case 2:
				n := 0
				w.c.All(func(k int, r Ref) bool {
					n++
					if k >= 0 && n > op.N/4 {
						hold(k, r)
					}
					return n < op.N
				})
			case 3:
				w.c.Mod(k, op.A, func(r Ref, ok bool) { hold(k, r) })
				if !w.has(k) {
					w.model[k] = 0
				}
			}
		case "hwrite":
			if hs := held[k]; len(hs) > 0 && w.has(k) {
				v := w.c.Norm(op.V)
				hs[op.N%len(hs)].r.Store(v)
				w.model[k] = v
				w.verifyKey(k, op.A, true)
				st.inc("write_through_held")
			} else if len(stale) > 0 { // write through a stale pointer: no entry may change
				s := &stale[op.N%len(stale)]
				s.r.Store(w.c.Norm(op.V))
				w.verifyLookups(op.A, false)
				st.inc("write_through_stale")
			}
		case "setrange", "delrange", "drain":
			// elementary steps, so that a pointer is retired before its key comes back
			for j := 0; j < w.n; j++ {
				k := w.c.Class((op.K + j) % w.n)
				switch {
				case op.O == "setrange" && j < op.N:
					w.set(k, op.A, op.V+j)
				case op.O == "delrange" && j < op.N:
					w.del(k, op.A)
				case op.O == "drain" && len(w.model) > op.N && w.has(k):
					w.del(k, op.A)
				}
				if len(held[k]) > 0 {
					retire()
				}
			}
		default:
			w.common(op)
		}
		if len(w.cls) <= 60 || i%8 == 0 {
			check(i%4 == 0 || op.O == "set" && len(w.cls) < 20)
		} else {
			retire()
		}
	}
	check(true)
	w.verifyLookups(0, true)
	st.Nontrivial = st.Class["held_across_split_and_delete"] > 0 && st.Class["stale_checked"] > 0
}

// --- C09 ---

// inner containers used as values: code v is the container registered under v.
type innerMap struct {
	m     amt.StringMap[int]
	model map[string]int
}

var inners map[int]*innerMap

var vSub = &vcodec[amt.StringMap[int]]{"submap", func(v int) amt.StringMap[int] {
	if v == 0 {
		return amt.StringMap[int]{}
	}
	x := inners[v]
	if x == nil {
		x = &innerMap{amt.NewStringMap[int](), map[string]int{"id": v}}
		x.m.Set("id", v)
		inners[v] = x
	}
	return x.m
}, func(m amt.StringMap[int]) int {
	if m.Nil() {
		return 0
	}
	v := m.Val("id")
	if x := inners[v]; v == 0 || x == nil || x.m != m {
		return -1
	}
	return v
}, func(v int) int { return v % 8 }}

func genC09(r R, tier string, i int) *Case {
	c := &Case{Prop: "C09", Hash: genHash(r)}
	n, pool, ops, kmax := r.Range(2, 4), 24, r.Range(10, 120), 64
	switch {
	case r.Chance(0.01): // many containers
		n, pool, ops = r.Range(5, 40), r.Range(2, 8), r.Range(40, 200)
	case r.Chance(0.003): // large containers
		n, pool, ops, kmax = r.Range(2, 3), pick(r, r.Range(25, 400), r.Range(401, 3000)), r.Range(5, 30), 4096
		massHash(&c.Hash, r)
		for j := 0; j < n; j++ {
			c.Ops = append(c.Ops, Op{O: "fill", H: j, V: r.Range(0, 999), N: r.IntN(1 << 12)})
		}
	}
	kinds := allKinds()
	for j := 0; j < n; j++ {
		var kind string
		if j > 0 && r.Chance(0.5) {
			kind = c.Kinds[r.IntN(j)] // several containers of one family
		} else {
			kind = pick(r, kinds...)
			if r.Chance(0.25) {
				kind = pick(r, "MapD", "SetD", "ArrMapF", "ArrSetF")
			}
		}
		c.Kinds = append(c.Kinds, kind)
		val := pick(r, "int", "string", "box", "any", "byte")
		if r.Chance(0.25) {
			val = "submap"
		}
		c.Vals = append(c.Vals, val)
		shared := false
		for q := 0; q < j; q++ {
			if keyFamily(c.Kinds[q]) == keyFamily(kind) && r.Chance(0.7) {
				c.Pools = append(c.Pools, c.Pools[q]) // the same keys in several containers
				shared = true
				break
			}
		}
		if !shared {
			c.Pools = append(c.Pools, genKeys(r, kind, r.Range((pool+11)/12, pool)))
		}
	}
	for ; ops > 0; ops-- {
		o := Op{H: r.IntN(n), K: r.IntN(kmax), A: r.IntN(8), V: r.Range(0, 999), N: r.IntN(1 << 12)}
		o.O = pick(r, "set", "set", "set", "set", "del", "del", "mod", "copy", "nestall", "nestmod", "hook", "hook", "inner", "clone", "setrange", "drain", "ptrset")
		if o.O == "setrange" {
			o.N = o.N&0xF00 | r.IntN(24)
		}
		if o.O == "drain" {
			o.N = o.N&0xF00 | r.IntN(3)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runC09(c *Case, st *Stats) {
	defer func() { userHook = nil }()
	inners = map[int]*innerMap{}
	if len(c.Kinds) < 1 || len(c.Kinds) != len(c.Pools) || len(c.Kinds) != len(c.Vals) {
		invalidf("containers")
	}
	type cont struct {
		w      *world
		copies []C
		used   map[int]bool
	}
	var cs []*cont
	for j, k := range c.Kinds {
		if len(c.Pools[j]) == 0 {
			invalidf("pool")
		}
		st.inc("kind:" + k)
		x := newC(k, c.Vals[j], c.Pools[j])
		cs = append(cs, &cont{w: newWorld(x, len(c.Pools[j]), nil), copies: []C{x}, used: map[int]bool{}})
	}
	// via switches the world of a container to one of its copies
	via := func(x *cont, sel int) {
		i := sel % len(x.copies)
		x.w.c = x.copies[i]
		x.used[i] = true
	}
	apply := func(op Op) (mutates bool) {
		x := cs[op.H%len(cs)]
		op.K %= x.w.n
		via(x, op.N>>8)
		op.N &= 0xFF
		op.N = min(op.N, x.w.n)
		if !x.w.c.IsMap() && (op.O == "mod" || op.O == "ptrset") {
			op.O = "set"
		}
		_, ch := x.w.common(op)
		return ch
	}
	verify := func(x *cont, full bool) {
		dep := x.copies[0].Dep()
		for i, cp := range x.copies {
			x.w.c = cp
			x.w.verifyLen()
			if cp.Dep() != dep {
				failf("%s: copies of one container report Dep %v and %v", cp.Kind(), dep, cp.Dep())
			}
			if cp.Nil() {
				failf("%s: a copy of an initialized container is Nil", cp.Kind())
			}
			if full || i == 0 {
				x.w.verifyLookups(i, false)
			}
		}
		if full {
			x.w.verifyAll()
		}
		if dep > 0 {
			st.inc("verified_with_depth")
		}
	}
	for i, op := range c.Ops {
		x := cs[op.H%len(cs)]
		k := x.w.c.Class(op.K % x.w.n)
		other := func(n int) Op {
			o := op
			o.H = (op.H + 1 + n%max(1, len(cs)-1)) % len(cs)
			o.K = op.K + n*7
			o.V = op.V + n
			o.O = []string{"set", "del", "set", "mod", "drain", "setrange"}[(op.V+n)%6]
			o.N = op.N&0xF00 | (op.V+n)%5
			return o
		}
		switch op.O {
		case "copy":
			if len(x.copies) < 5 {
				x.copies = append(x.copies, x.copies[op.N%len(x.copies)].Copy())
			} else {
				x.copies[op.K%4] = x.copies[op.N%len(x.copies)].Copy()
			}
		case "clone": // a new container replaces one: it starts empty and is independent
			nc := newC(c.Kinds[op.H%len(cs)], c.Vals[op.H%len(cs)], c.Pools[op.H%len(cs)])
			nw := newWorld(nc, x.w.n, nil)
			nw.verifyLen()
			nw.set(k, op.A, op.V)
			verify(x, true)
			if nc.Len() != 1 {
				failf("%s: a new container has Len %d after one insertion", nc.Kind(), nc.Len())
			}
			if op.V%2 == 0 {
				*x = cont{w: nw, copies: []C{nc}, used: map[int]bool{}}
			}
		case "nestall":
			if len(cs) < 2 {
				continue
			}
			via(x, op.N>>8)
			it := x.w.c
			var order, want []int
			x.w.c.All(func(k int, _ Ref) bool { want = append(want, k); return true })
			n := 0
			it.All(func(k int, r Ref) bool {
				order = append(order, k)
				if n < 4 {
					apply(other(n))
					y := cs[other(n).H]
					if (n+op.V)%2 == 0 { // iterate the other container, completely or in part
						y.w.verifyAll()
					} else {
						left := op.V % 7
						y.w.c.All(func(int, Ref) bool { left--; return left >= 0 })
					}
					n++
					st.inc("nested_in_All")
				}
				return true
			})
			if fmt.Sprint(order) != fmt.Sprint(want) {
				failf("%s: modifying other containers during All changed the iteration", it.Kind())
			}
		case "nestmod":
			if len(cs) < 2 || !x.w.c.IsMap() {
				continue
			}
			via(x, op.N>>8)
			v := x.w.c.Norm(op.V)
			want, has := x.w.model[k]
			x.w.c.Mod(k, op.A, func(r Ref, ok bool) {
				for n := 0; n < 2; n++ {
					apply(other(n))
					cs[other(n).H].w.verifyAll()
				}
				if ok != has || r.Load() != want {
					failf("%s: Mod of key #%d passes (%d,%v), want (%d,%v), after changes to other containers", x.w.c.Kind(), k, r.Load(), ok, want, has)
				}
				r.Store(v)
			})
			x.w.model[k] = v
			st.inc("nested_in_Mod")
		case "hook": // key methods called by an operation on one container use the others
			if f := keyFamily(c.Kinds[op.H%len(cs)]); len(cs) < 2 || f != "digit" && !strings.HasSuffix(c.Kinds[op.H%len(cs)], "F") {
				continue
			}
			via(x, op.N>>8)
			in, fires := false, 0
			userHook = func(where string) {
				if in || fires > 12 {
					return
				}
				in = true
				o := other(fires)
				if y := cs[o.H]; fires%3 == 1 { // a deletion which has an effect
					for q := range y.w.n {
						if cl := y.w.cls[(q+o.K)%len(y.w.cls)]; y.w.has(cl) {
							o.O, o.K = "del", cl
							break
						}
					}
				}
				apply(o)
				fires++
				st.inc("nested_in_" + where)
				in = false
			}
			o := op
			o.O = []string{"set", "del", "del", "mod", "ptrset"}[op.V%5]
			if o.O == "del" && !x.w.has(k) { // choose a present key
				for q := range x.w.cls {
					if cl := x.w.cls[(q+op.A)%len(x.w.cls)]; x.w.has(cl) {
						o.K = cl
						break
					}
				}
			}
			apply(o)
			userHook = nil
		case "fill":
			via(x, op.N>>8)
			for j := 0; j < x.w.n; j++ {
				x.w.set(j, op.A, op.V+j)
			}
		case "inner": // change a container stored as a value, through the looked up copy
			if c.Vals[op.H%len(cs)] != "submap" || !x.w.c.IsMap() {
				continue
			}
			via(x, op.N>>8)
			v := x.w.model[k]
			m, ok := innerVal(x.w.c, k)
			if !ok {
				continue
			}
			if m.Nil() != (v == 0) {
				failf("%s: container stored as the value of key #%d: Nil %v, want %v", x.w.c.Kind(), k, m.Nil(), v == 0)
			}
			if v == 0 {
				continue
			}
			ik := fmt.Sprint("k", op.V%40)
			if op.N&1 == 0 {
				m.Set(ik, op.V)
				inners[v].model[ik] = op.V
			} else {
				m.Del(ik)
				delete(inners[v].model, ik)
			}
			st.inc("inner_mutation")
			for id, in := range inners {
				if in.m.Len() != uint(len(in.model)) {
					failf("StringMap stored as a value (code %d): Len %d, want %d", id, in.m.Len(), len(in.model))
				}
				for kk, vv := range in.model {
					if g, ok := in.m.Get(kk); !ok || g != vv {
						failf("StringMap stored as a value (code %d): key %q is (%d,%v), want %d", id, kk, g, ok, vv)
					}
				}
			}
		default:
			apply(op)
		}
		for j, y := range cs {
			verify(y, (i+j)%5 == 0)
		}
	}
	for _, y := range cs {
		verify(y, true)
		if len(y.used) > 1 {
			st.inc("used_through_several_copies")
		}
	}
	st.Nontrivial = st.Class["nested_in_All"]+st.Class["nested_in_Mod"] > 0 && st.Class["used_through_several_copies"] > 0 && st.Class["verified_with_depth"] > 0
}

// innerVal looks up a container-valued entry.
func innerVal(c C, k int) (amt.StringMap[int], bool) {
	type getter interface {
		rawVal(k int) any
	}
	m, ok := c.(getter).rawVal(k).(amt.StringMap[int])
	return m, ok
}

// --- C10 ---

func mustPanic(kind, what string, f func()) {
	panicked := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				if fe, ok := e.(*Failure); ok {
					panic(fe)
				}
				panicked = true
			}
		}()
		f()
	}()
	if !panicked {
		failf("%s: %s of an uninitialized container does not panic", kind, what)
	}
}

func runC10(c *Case, st *Stats) {
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	z := zeroC(c.Kind, c.Val, c.Keys)
	st.inc("kind:" + c.Kind)
	if w.c.IsMap() {
		st.inc("val:" + c.Val)
	}
	cb := func() { failf("%s: a method of an uninitialized container runs its callback", c.Kind) }
	isZero := func(x C) {
		if !x.Nil() {
			failf("%s: Nil of an uninitialized container is false", c.Kind)
		}
		if n := x.Len(); n != 0 {
			failf("%s: Len of an uninitialized container is %d", c.Kind, n)
		}
		if d := x.Dep(); d != 0 {
			failf("%s: Dep of an uninitialized container is %v", c.Kind, d)
		}
	}
	fresh := func(x C) {
		if x.Nil() {
			failf("%s: a new container is Nil", c.Kind)
		}
		if x.Len() != 0 || x.Dep() != 0 {
			failf("%s: a new container has Len %d, Dep %v", c.Kind, x.Len(), x.Dep())
		}
		x.All(func(int, Ref) bool { failf("%s: All of a new container visits an entry", c.Kind); return false })
	}
	fresh(w.c)
	isZero(z)
	for _, op := range c.Ops {
		k, alt := op.K, op.A
		isMap := z.IsMap()
		switch op.O {
		case "z-nil", "z-len", "z-dep":
			isZero(z)
			st.inc("zero_answers")
		case "z-val":
			if !isMap {
				continue
			}
			if v := z.Val(k, alt); v != 0 {
				failf("%s: Val of an uninitialized map is not the zero value", c.Kind)
			}
			st.inc("zero_answers")
		case "z-get":
			mustPanic(c.Kind, "Get/Has", func() { z.Get(k, alt) })
			st.inc("zero_panics")
		case "z-ptr":
			if isMap {
				mustPanic(c.Kind, "Ptr", func() { z.Ptr(k, alt) })
				st.inc("zero_panics")
			}
		case "z-set":
			mustPanic(c.Kind, "Set/Add", func() { z.Set(k, alt, op.V) })
			st.inc("zero_panics")
		case "z-mod":
			if isMap {
				mustPanic(c.Kind, "Mod", func() { z.Mod(k, alt, func(Ref, bool) { cb() }) })
				st.inc("zero_panics")
			}
		case "z-del":
			mustPanic(c.Kind, "Del", func() { z.Del(k, alt) })
			st.inc("zero_panics")
		case "z-all":
			mustPanic(c.Kind, "All", func() { z.All(func(int, Ref) bool { cb(); return true }) })
			st.inc("zero_panics")
		case "z-copy":
			z = z.Copy()
		case "fresh":
			x := newC(c.Kind, c.Val, c.Keys)
			fresh(x)
			if op.N&1 == 0 { // containers as values: Val of a missing key is an uninitialized container
				checkValOfContainers(op)
				st.inc("container_values")
			}
		default:
			w.common(op)
		}
		isZero(z)
		w.verifyLookups(alt, false)
		w.verifyLen()
	}
	w.verifyAll()
	st.Nontrivial = st.Class["zero_panics"] > 0 && st.Class["zero_answers"] > 0 && st.Class["insert"] > 0
}

type lenDep interface {
	Nil() bool
	Len() uint
	Dep() float64
}

func checkEmpty(what string, x lenDep, isNil bool, n uint) {
	if x.Nil() != isNil || x.Len() != n || n < 2 && x.Dep() != 0 {
		failf("%s: Nil %v, Len %d, Dep %v; want Nil %v, Len %d", what, x.Nil(), x.Len(), x.Dep(), isNil, n)
	}
}

// checkValOfContainers uses containers as values of maps, as documented for Val on uninitialized maps.
func checkValOfContainers(op Op) {
	a, b := int64(op.V), int64(op.V+1)
	m1 := amt.NewIntMap[amt.StringMap[string]]()
	in1 := amt.NewStringMap[string]()
	in1.Set("x", "y")
	m1.Set(a, in1)
	checkEmpty("IntMap[StringMap].Val(present)", m1.Val(a), false, 1)
	checkEmpty("IntMap[StringMap].Val(missing)", m1.Val(b), true, 0)
	if s := m1.Val(a).Val("x"); s != "y" {
		failf("IntMap[StringMap].Val(present).Val(present) is %q", s)
	}
	if s := m1.Val(b).Val("x"); s != "" {
		failf("IntMap[StringMap].Val(missing).Val(key) is %q", s)
	}
	m2 := amt.NewStringMap[amt.IntSet]()
	in2 := amt.NewIntSet()
	m2.Set("a", in2)
	in2.Add(a)
	checkEmpty("StringMap[IntSet].Val(present)", m2.Val("a"), false, 1)
	checkEmpty("StringMap[IntSet].Val(missing)", m2.Val("b"), true, 0)
	m3 := amt.NewMap[DKey, amt.Map[DKey, amt.BytesMap[int]]]()
	in3 := amt.NewMap[DKey, amt.BytesMap[int]]()
	m3.Set(DKey{id: 1}, in3)
	checkEmpty("Map[Map].Val(present)", m3.Val(DKey{id: 1}), false, 0)
	checkEmpty("Map[Map].Val(missing)", m3.Val(DKey{id: 2}), true, 0)
	checkEmpty("Map[Map].Val(missing).Val", m3.Val(DKey{id: 2}).Val(DKey{id: 1}), true, 0)
	if v := m3.Val(DKey{id: 2}).Val(DKey{id: 1}).Val([]byte("k")); v != 0 {
		failf("Val of a missing map in a missing map is %d", v)
	}
	m4 := amt.NewBytesMap[amt.Set[FoldKey]]()
	m4.Mod([]byte("k"), func(s *amt.Set[FoldKey], ok bool) {
		checkEmpty("BytesMap[Set].Mod(new)", *s, true, 0)
		*s = amt.NewSet[FoldKey]()
		s.Add(FoldKey{"Q"})
	})
	checkEmpty("BytesMap[Set].Val", m4.Val([]byte("k")), false, 1)
	m5 := amt.NewArrMap[A8, amt.ArrMap[A64, amt.StringSet]]()
	checkEmpty("ArrMap[ArrMap].Val(missing)", m5.Val(A8{1}), true, 0)
	checkEmpty("ArrMap[ArrMap].Val(missing).Val", m5.Val(A8{1}).Val(A64{2}), true, 0)
	m6 := amt.NewIntMap[amt.ArrSet[A8]]()
	checkEmpty("IntMap[ArrSet].Val(missing)", m6.Val(a), true, 0)
	m7 := amt.NewIntMap[amt.BytesSet]()
	m7.Set(a, amt.NewBytesSet())
	checkEmpty("IntMap[BytesSet].Val(present)", m7.Val(a), false, 0)
	checkEmpty("IntMap[BytesSet].Val(missing)", m7.Val(b), true, 0)
}
