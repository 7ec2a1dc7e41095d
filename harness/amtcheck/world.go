package main

import (
	"sort"
)

// world runs a history on one container and its reference model.
type world struct {
	c     C
	model map[int]int // class -> value code
	n     int         // pool size
	cls   []int       // distinct classes in pool order
	st    *Stats
	specs []KeySpec

	inside func() // called from callbacks, if not nil
}

func newWorld(c C, n int, st *Stats) *world {
	w := &world{c: c, model: map[int]int{}, n: n, st: st}
	for i := 0; i < n; i++ {
		if c.Class(i) == i {
			w.cls = append(w.cls, i)
		}
	}
	return w
}

func (w *world) has(k int) bool { _, ok := w.model[k]; return ok }

// touch is called after a structural change, for statistics only.
func (w *world) touch() {
	if w.st != nil {
		if d := w.c.Dep(); d > 0 {
			w.st.max("mean_depth_x100", d*100)
		}
		w.st.max("len", float64(len(w.model)))
	}
}

func (w *world) inc(s string) {
	if w.st != nil {
		w.st.inc(s)
	}
}

func (w *world) set(k, alt, v int) {
	k = w.c.Class(k)
	v = w.c.Norm(v)
	if w.has(k) {
		w.inc("overwrite")
	} else {
		w.inc("insert")
		if len(w.model) > 0 && w.st != nil {
			before := w.c.Dep() * float64(w.c.Len())
			w.c.Set(k, alt, v)
			w.model[k] = v
			if w.c.Dep()*float64(w.c.Len()) > before+0.5 {
				w.inc("insert_below_root")
			}
			w.touch()
			return
		}
	}
	w.c.Set(k, alt, v)
	w.model[k] = v
}

func (w *world) del(k, alt int) {
	k = w.c.Class(k)
	if w.has(k) {
		if w.st != nil && w.c.Dep() > 0 {
			w.inc("delete_with_depth")
		}
		w.inc("delete_present")
	} else {
		w.inc("delete_absent")
	}
	w.c.Del(k, alt)
	delete(w.model, k)
}

// verifyKey checks the lookups of one key against the model.
func (w *world) verifyKey(k, alt int, full bool) {
	want, has := w.model[k]
	got, ok := w.c.Get(k, alt)
	if ok != has || has && got != want {
		failf("%s: lookup of key #%d: got (%d,%v), want (%d,%v); %d keys present", w.c.Kind(), k, got, ok, want, has, len(w.model))
	}
	if !has && got != 0 {
		failf("%s: Get of missing key #%d returned a non-zero value (code %d)", w.c.Kind(), k, got)
	}
	if full && w.c.IsMap() {
		if v := w.c.Val(k, alt); v != want {
			failf("%s: Val of key #%d: got %d, want %d (present %v)", w.c.Kind(), k, v, want, has)
		}
		p := w.c.Ptr(k, alt)
		if (p != nil) != has {
			failf("%s: Ptr of key #%d: nil=%v, present=%v", w.c.Kind(), k, p == nil, has)
		}
		if p != nil && p.Load() != want {
			failf("%s: *Ptr of key #%d: got %d, want %d", w.c.Kind(), k, p.Load(), want)
		}
	}
}

func (w *world) verifyLookups(alt int, full bool) {
	for _, k := range w.cls {
		w.verifyKey(k, alt, full)
	}
}

// verifyAll checks one complete iteration against the model.
func (w *world) verifyAll() []int {
	seen := make(map[int]bool, len(w.model))
	var order []int
	w.c.All(func(k int, r Ref) bool {
		if k < 0 {
			failf("%s: All visits a key which was never inserted", w.c.Kind())
		}
		if seen[k] {
			failf("%s: All visits key #%d twice", w.c.Kind(), k)
		}
		seen[k] = true
		want, has := w.model[k]
		if !has {
			failf("%s: All visits key #%d, which is not present", w.c.Kind(), k)
		}
		if w.c.IsMap() {
			if r.Nil() {
				failf("%s: All passes a nil value pointer for key #%d", w.c.Kind(), k)
			}
			if v := r.Load(); v != want {
				failf("%s: All passes value %d for key #%d, want %d", w.c.Kind(), v, k, want)
			}
		}
		order = append(order, k)
		if w.inside != nil {
			w.inside()
		}
		return true
	})
	if len(seen) != len(w.model) {
		for _, k := range w.cls {
			if w.has(k) && !seen[k] {
				failf("%s: All visits %d of %d entries; misses key #%d", w.c.Kind(), len(seen), len(w.model), k)
			}
		}
	}
	return order
}

func (w *world) verifyLen() {
	if n := w.c.Len(); n != uint(len(w.model)) {
		failf("%s: Len is %d with %d keys present", w.c.Kind(), n, len(w.model))
	}
}

// common applies the operations shared by all properties; it reports whether it
// knew the operation and whether it may have changed the container.
func (w *world) common(op Op) (known, changed bool) {
	k := w.c.Class(op.K)
	switch op.O {
	case "set":
		w.set(k, op.A, op.V)
		return true, true
	case "del":
		w.del(k, op.A)
		return true, true
	case "setrange":
		for i := 0; i < op.N; i++ {
			w.set((op.K+i)%w.n, op.A, op.V+i)
		}
		return true, true
	case "delrange":
		for i := 0; i < op.N; i++ {
			j := (op.K + i) % w.n
			if op.A&2 != 0 {
				j = (op.K + op.N - i) % w.n
			}
			w.del(j, op.A)
		}
		return true, true
	case "drain": // delete all but N keys, starting at K
		for i := 0; i < w.n && len(w.model) > op.N; i++ {
			if j := w.c.Class((op.K + i) % w.n); w.has(j) {
				w.del(j, op.A)
			}
		}
		w.inc("drain")
		return true, true
	case "get":
		w.verifyKey(k, op.A, false)
		return true, false
	case "val", "ptr":
		w.verifyKey(k, op.A, true)
		return true, false
	case "ptrset":
		if p := w.c.Ptr(k, op.A); p != nil {
			if !w.has(k) {
				failf("%s: Ptr of missing key #%d is not nil", w.c.Kind(), k)
			}
			v := w.c.Norm(op.V)
			p.Store(v)
			w.model[k] = v
			w.inc("write_through_ptr")
		} else if w.has(k) {
			failf("%s: Ptr of present key #%d is nil", w.c.Kind(), k)
		}
		return true, true
	case "mod", "modread":
		w.mod(k, op.A, op.V, op.O == "mod")
		return true, true
	case "len":
		w.verifyLen()
		return true, false
	case "dep":
		w.c.Dep()
		return true, false
	case "all":
		w.verifyAll()
		return true, false
	}
	return false, false
}

func (w *world) mod(k, alt, v int, write bool) {
	want, has := w.model[k]
	v = w.c.Norm(v)
	calls := 0
	w.c.Mod(k, alt, func(r Ref, ok bool) {
		calls++
		if calls > 1 {
			failf("%s: Mod calls its callback more than once", w.c.Kind())
		}
		if w.inside != nil {
			w.inside()
		}
		if ok != has {
			failf("%s: Mod of key #%d passes %v, key present: %v", w.c.Kind(), k, ok, has)
		}
		if r.Nil() {
			failf("%s: Mod passes a nil pointer", w.c.Kind())
		}
		if got := r.Load(); got != want {
			failf("%s: Mod of key #%d passes value %d, want %d", w.c.Kind(), k, got, want)
		}
		if write {
			r.Store(v)
		}
		if w.inside != nil {
			w.inside()
		}
	})
	if calls != 1 {
		failf("%s: Mod calls its callback %d times", w.c.Kind(), calls)
	}
	if write {
		w.model[k] = v
	} else {
		w.model[k] = want
	}
	if has {
		w.inc("mod_present")
	} else {
		w.inc("mod_absent")
		w.touch()
	}
}

// exactDepths returns the sum of the depths of the present keys and the maximum
// depth, for digit keys: the longest prefix shared with another present key.
func exactDepths(specs []KeySpec, present []int) (sum, maxd int) {
	if len(present) < 2 {
		return 0, 0
	}
	ks := append([]int(nil), present...)
	// sort by digit string; the neighbours share the longest prefixes
	less := func(a, b int) bool {
		for i := 0; i < 256; i++ {
			x, y := digit(&specs[a], i), digit(&specs[b], i)
			if x != y {
				return x < y
			}
		}
		return false
	}
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	l := make([]int, len(ks)+1)
	for i := 1; i < len(ks); i++ {
		l[i] = lcp(&specs[ks[i-1]], &specs[ks[i]])
	}
	for i := range ks {
		d := max(l[i], l[i+1])
		sum += d
		maxd = max(maxd, d)
	}
	return
}

func (w *world) present() []int {
	var ks []int
	for _, k := range w.cls {
		if w.has(k) {
			ks = append(ks, k)
		}
	}
	return ks
}
