package main

import (
	"math/rand/v2"
	"strings"
)

func init() {
	// C20: operations from inside operations.
	register(&Property{
		ID:  "C20",
		Gen: genC20, Run: runC20, Quick: 150000, Thorough: 5000000, Variants: plainVariant,
		Rule: "random histories in which callbacks of All and Mod (three levels deep) and key methods (Hash, Equal, KeyBytes of user keys) run random scripts on the same container: lookups, iterations, overwrites, deletions of absent keys anywhere; insertions and deletions where every enclosing operation is an All about to be stopped or a Mod of a present key; key methods also modify another container; everything read is compared with a reference model at once, the final structure with a same-seed container built directly; non-trivial: the structure was changed from inside a callback, and a container with entries below the root was read or overwritten from inside another",
	})
}

func genC20(r R, tier string, i int) *Case {
	kinds := []string{"MapD", "SetD", "ArrMapF", "ArrSetF"}
	if r.Chance(0.7) {
		kinds = append(append([]string{}, allKinds()...), mapKinds...)
	}
	c := genWorldCase("C20", r, kinds, weights{"mod": 5})
	if n := len(c.Keys); n > 60 && n <= 700 && !r.Chance(0.03) {
		c.Keys = genKeys(r, c.Kind, r.Range(5, 60))
		c.Ops = genOps(r, len(c.Keys), r.Range(10, 80), isMapKind(c.Kind), weights{"mod": 5})
		if c.Hash.Mode == 6 && !stagedOK(c.Hash, minHashed(c.Kind, c.Keys)) {
			c.Hash = genHash(r)
		}
	}
	for j := r.Range(0, 5); j < len(c.Ops); j += r.Range(1, 8) {
		o := pick(r, "allin", "allin", "modin", "modin", "modin", "hook")
		if !isMapKind(c.Kind) && o == "modin" {
			o = "allin"
		}
		op := Op{O: o, K: r.IntN(len(c.Keys)), A: r.IntN(8), V: r.Range(1, 999), N: int(r.Uint32() >> 1), H: r.IntN(6)}
		c.Ops = append(c.Ops[:j], append([]Op{op}, c.Ops[j:]...)...)
	}
	return c
}

// reent runs scripts inside operations on one container.
type reent struct {
	w      *world
	other  *world // modified by key methods
	rng    *rand.Rand
	gen    map[int]int  // deletions of each key
	hidden map[int]bool // keys whose state is undefined while an operation on them runs
	left   int          // actions left in the current operation
	st     *Stats
}

func (x *reent) key() int { return x.w.cls[x.rng.IntN(len(x.w.cls))] }

func (x *reent) presentKey() int {
	for i := 0; i < 4; i++ {
		if k := x.key(); x.w.has(k) && !x.hidden[k] {
			return k
		}
	}
	return -1
}

// read looks something up and compares it with the model.
func (x *reent) read() {
	w := x.w
	if w.c.Dep() > 0 {
		x.st.inc("nested_read_deep")
	}
	switch x.rng.IntN(8) {
	case 0:
		if len(x.hidden) == 0 {
			w.verifyLen()
			break
		}
		fallthrough
	case 1:
		x.readAll()
	default:
		if k := x.key(); !x.hidden[k] {
			w.verifyKey(k, x.rng.IntN(8), x.rng.IntN(3) == 0)
		}
	}
}

// readAll iterates, possibly not to the end, and compares with the model.
func (x *reent) readAll() {
	w := x.w
	seen := map[int]bool{}
	stop := -1
	if x.rng.IntN(3) == 0 {
		stop = x.rng.IntN(len(w.model) + 1)
	}
	n := 0
	w.c.All(func(k int, r Ref) bool {
		if k < 0 {
			failf("%s: nested All visits a key which was never inserted", w.c.Kind())
		}
		n++
		if stop >= 0 && n > stop+1 {
			failf("%s: nested All continues after its callback returned false", w.c.Kind())
		}
		if seen[k] {
			failf("%s: nested All visits key #%d twice", w.c.Kind(), k)
		}
		seen[k] = true
		if !x.hidden[k] {
			v, has := w.model[k]
			if !has {
				failf("%s: nested All visits key #%d, which is not present", w.c.Kind(), k)
			}
			if w.c.IsMap() && r.Load() != v {
				failf("%s: nested All passes value %d for key #%d, want %d", w.c.Kind(), r.Load(), k, v)
			}
		}
		return n-1 != stop
	})
	if stop < 0 || n <= stop {
		for k := range w.model {
			if !seen[k] && !x.hidden[k] {
				failf("%s: nested All misses key #%d", w.c.Kind(), k)
			}
		}
	}
}

// act runs a script; free allows it to insert and delete keys.
func (x *reent) act(free bool, depth int) {
	w := x.w
	for m := 1 + x.rng.IntN(3); m > 0 && x.left > 0; m-- {
		x.left--
		alt := x.rng.IntN(8)
		switch a := x.rng.IntN(12); {
		case a < 4:
			x.read()
		case a == 4: // overwrite
			if k := x.presentKey(); k >= 0 {
				w.set(k, alt, 1+x.rng.IntN(900))
				x.st.inc("nested_overwrite")
			}
		case a == 5: // through a pointer
			if k := x.presentKey(); k >= 0 && w.c.IsMap() {
				v := w.c.Norm(1 + x.rng.IntN(900))
				p := w.c.Ptr(k, alt)
				if p == nil {
					failf("%s: Ptr of present key #%d is nil inside an operation", w.c.Kind(), k)
				}
				p.Store(v)
				w.model[k] = v
			}
		case a == 6: // a deletion without effect
			if k := x.key(); !w.has(k) && !x.hidden[k] {
				w.del(k, alt)
				x.st.inc("nested_delete_absent")
			}
		case a == 7 && depth < 3:
			x.all(free, depth+1)
		case a == 8 && depth < 3:
			if !w.c.IsMap() {
				continue
			}
			if k := x.presentKey(); k >= 0 {
				x.mod(k, alt, free, depth+1)
			}
		case free && a >= 9:
			k := x.key()
			if x.hidden[k] {
				continue
			}
			x.st.inc("nested_structural")
			if x.rng.IntN(3) > 0 && w.has(k) || x.rng.IntN(8) == 0 {
				x.del(k, alt)
			} else if w.c.IsMap() && x.rng.IntN(3) == 0 {
				x.mod(k, alt, free, depth+1)
			} else {
				w.set(k, alt, 1+x.rng.IntN(900))
			}
		default:
			x.read()
		}
	}
}

func (x *reent) del(k, alt int) {
	if x.w.has(k) {
		x.gen[k]++
	}
	x.w.del(k, alt)
}

// all iterates; at one entry it runs a script, and stops after it if the script may change the structure.
func (x *reent) all(free bool, depth int) {
	w := x.w
	n, at := 0, x.rng.IntN(len(w.model)+1)
	stop := x.rng.IntN(2) == 0
	stopped := false
	seen := map[int]bool{}
	w.c.All(func(k int, r Ref) bool {
		if stopped {
			failf("%s: All continues after its callback returned false", w.c.Kind())
		}
		if k < 0 || seen[k] {
			failf("%s: All visits key #%d again or an unknown key, with operations inside its callback", w.c.Kind(), k)
		}
		seen[k] = true
		if !x.hidden[k] {
			v, has := w.model[k]
			if !has {
				failf("%s: All visits key #%d, which is not present", w.c.Kind(), k)
			}
			if w.c.IsMap() && r.Load() != v {
				failf("%s: All passes value %d for key #%d, want %d (operations ran inside its callback)", w.c.Kind(), r.Load(), k, v)
			}
		}
		if n == at || !stop && x.rng.IntN(8) == 0 {
			gen := x.gen[k]
			x.act(free && stop, depth)
			x.use(k, gen, r)
			if stop {
				stopped = true
				return false
			}
		}
		n++
		return true
	})
	if !stopped {
		for k := range w.model {
			if !seen[k] && !x.hidden[k] {
				failf("%s: All misses key #%d, with operations inside its callback", w.c.Kind(), k)
			}
		}
	}
	x.st.inc("all_with_script")
}

// use reads or writes a value pointer after a script ran.
func (x *reent) use(k, gen int, r Ref) {
	w := x.w
	if !w.c.IsMap() || x.hidden[k] || x.rng.IntN(2) == 0 {
		return
	}
	v := w.c.Norm(1 + x.rng.IntN(900))
	if x.gen[k] == gen {
		if got := r.Load(); got != w.model[k] {
			failf("%s: the pointer passed for key #%d denotes %d after operations inside the callback, want %d", w.c.Kind(), k, got, w.model[k])
		}
		w.model[k] = v
	} else {
		x.st.inc("write_through_pointer_of_deleted")
	}
	r.Store(v)
}

// mod runs Mod with a script in its callback.
func (x *reent) mod(k, alt int, free bool, depth int) {
	w := x.w
	want, has := w.model[k]
	calls := 0
	w.c.Mod(k, alt, func(r Ref, ok bool) {
		if calls++; calls > 1 {
			failf("%s: Mod calls its callback more than once", w.c.Kind())
		}
		if ok != has || r.Load() != want {
			failf("%s: Mod of key #%d passes %d, %v; want %d, %v", w.c.Kind(), k, r.Load(), ok, want, has)
		}
		if has {
			gen := x.gen[k]
			x.act(free, depth)
			x.use(k, gen, r)
			return
		}
		x.hidden[k] = true
		x.act(false, depth)
		delete(x.hidden, k)
		if got := r.Load(); got != 0 && w.c.Norm(1) != 0 {
			failf("%s: the new value of key #%d changed to %d during the callback", w.c.Kind(), k, got)
		}
		v := w.c.Norm(1 + x.rng.IntN(900))
		r.Store(v)
		w.model[k] = v
		x.st.inc("mod_absent_with_script")
	})
	if calls != 1 {
		failf("%s: Mod calls its callback %d times", w.c.Kind(), calls)
	}
	x.st.inc("mod_with_script")
}

func runC20(c *Case, st *Stats) {
	defer func() { userHook = nil }()
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	other := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), nil)
	st.inc("kind:" + c.Kind)
	x := &reent{w: w, other: other, gen: map[int]int{}, hidden: map[int]bool{}, st: st}
	f := keyFamily(c.Kind)
	hooks := f == "digit" || strings.HasSuffix(c.Kind, "F")
	for _, op := range c.Ops {
		k := w.c.Class(op.K)
		x.rng = rand.New(rand.NewPCG(uint64(op.N), 20))
		x.left = 40
		switch op.O {
		case "allin":
			x.all(true, 0)
		case "modin":
			if !w.c.IsMap() {
				invalidf("Mod on a set")
			}
			x.mod(k, op.A, true, 0)
		case "hook":
			if !hooks {
				continue
			}
			clear(x.hidden)
			x.hidden[k] = true // its state during an operation on it is undefined
			in, fires := false, 0
			userHook = func(where string) {
				if in || fires > 30 {
					return
				}
				in = true
				fires++
				st.inc("hook_in_" + where)
				if x.rng.IntN(3) == 0 {
					ok := x.key()
					if other.has(ok) && x.rng.IntN(2) == 0 {
						other.del(ok, 0)
					} else {
						other.set(ok, 0, 1+x.rng.IntN(900))
					}
				} else {
					x.read()
				}
				in = false
			}
			had := w.has(k)
			switch {
			case op.H == 0:
				w.verifyKey(k, op.A, true)
			case op.H == 1 && w.c.IsMap():
				w.mod(k, op.A, op.V, true)
			case op.H <= 3:
				x.del(k, op.A)
			default:
				w.set(k, op.A, op.V)
			}
			userHook = nil
			clear(x.hidden)
			if fires > 2 && !had {
				st.inc("hook_during_insertion")
			}
			other.verifyLookups(0, false)
			other.verifyLen()
		default:
			w.common(op)
			continue
		}
		if len(x.hidden) != 0 {
			invalidf("hidden")
		}
		w.verifyLookups(op.A, false)
		w.verifyLen()
		w.verifyAll()
	}
	setHash(c.Hash, true)
	d := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), nil)
	for _, k := range w.cls {
		if w.has(k) {
			d.set(k, 0, w.model[k])
		}
	}
	w.sameStructure(d, "history with operations inside operations vs direct construction")
	st.Nontrivial = st.Class["nested_structural"] > 0 && st.Class["nested_read_deep"] > 0
}
