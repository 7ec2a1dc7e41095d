package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"weak"
)

func runGC() { runtime.GC() }

func init() {
	register(&Property{
		ID: "C12", Gen: genC12, Run: runC12, Quick: 10000, Thorough: 200000,
		Variants: []Variant{
			{Build: "asan", Scale: 0.5, Proc: 2, Env: []string{"GODEBUG=clobberfree=1", "GOGC=15", "ASAN_OPTIONS=detect_leaks=0:exitcode=67:abort_on_error=0:halt_on_error=1"}},
			{Build: "race", Scale: 0.5, Proc: 2, Env: []string{"GODEBUG=clobberfree=1", "GOGC=15", "GORACE=halt_on_error=1 exitcode=66"}},
		},
		Rule:   "random histories of all families with pointerful, zero-size, small and large values, forced collections at random points, also inside callbacks and key methods, where the stack is moved as well; freed memory overwritten (clobberfree), surrounding canary objects of the link-array size classes; values and keys are self-describing and decoded after each collection; built once with the address sanitizer and once with the race/checkptr instrumentation; non-trivial: a collection ran after deletions below the root and lookups of all keys were verified after it",
		Assume: []string{"memory errors are those the address sanitizer, checkptr, the collector's own checks, clobbered freed memory and canaries make visible"},
	})
	register(&Property{
		ID: "C13", Gen: genC13, Run: runC13, Quick: 3000, Thorough: 80000,
		// frames of asynchronously preempted goroutines are scanned conservatively
		Variants: []Variant{{Build: "plain", Scale: 1, Proc: 2, Env: []string{"GODEBUG=asyncpreemptoff=1"}}},
		Rule:     "random histories of all families with heap-owning keys and values, each watched by a weak pointer; at random points, after a full collection, no key or value object of an absent key may be alive and at most one of a present key; at the end the live heap freed by dropping the container is compared with a twin built directly from the same content and seed; non-trivial: at a check some key had been deleted below the root and others were present",
		Assume:   []string{"runtime.GC reclaims what is unreachable (repeated up to 6 times before an object counts as retained)"},
	})
}

// --- C12 ---

func genC12(r R, tier string, i int) *Case {
	kinds := append(allKinds(), "ArrMapF", "ArrSetF", "MapD", "SetD")
	c := genWorldCase("C12", r, kinds, weights{"gc": 6, "garbage": 8, "get": 4, "val": 3, "ptr": 3, "ptrset": 6, "mod": 10, "all": 4, "hold": 4, "modpanic": 2})
	if isMapKind(c.Kind) && r.Chance(0.5) {
		c.Val = pick(r, "box", "any", "slice", "string", "pair")
	}
	for j := range c.Ops { // a collection and a moved stack in the H-th call of user code
		if o := &c.Ops[j]; r.Chance(0.06) && (o.O == "mod" || o.O == "all" || keyFamily(c.Kind) == "digit" || strings.HasSuffix(c.Kind, "F")) {
			o.H = pick(r, 1, 1, 2, 2, 3, r.Range(3, 12))
		}
	}
	if r.Chance(0.05) { // larger containers
		nk := r.Range(500, 2500)
		if keyFamily(c.Kind) != "digit" && c.Hash.Mode == 0 {
			c.Keys = genKeys(r, c.Kind, nk)
			for j := range c.Ops {
				if o := &c.Ops[j]; o.O == "setrange" || o.O == "delrange" {
					o.N = r.Range(1, len(c.Keys))
					o.K = r.IntN(len(c.Keys))
				}
			}
		}
	}
	return c
}

// canary is a pattern-filled object of a link array size class.
type canary struct {
	b []uint64
	x uint64
}

func newCanary(words int, x uint64) canary {
	c := canary{make([]uint64, words), x}
	for i := range c.b {
		c.b[i] = x + uint64(i)*0x9e3779b97f4a7c15
	}
	return c
}

func (c canary) check() {
	for i := range c.b {
		if c.b[i] != c.x+uint64(i)*0x9e3779b97f4a7c15 {
			failf("an unrelated object of %d bytes was overwritten at word %d", 8*len(c.b), i)
		}
	}
}

var garbageSink []any

// growStack uses n KB of stack, so that it is probably moved.
//
//go:noinline
func growStack(n int) byte {
	var b [1024]byte
	b[n&1023] = 1
	if n > 0 {
		b[0] += growStack(n - 1)
	}
	return b[n&511]
}

func runC12(c *Case, st *Stats) {
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	if w.c.IsMap() {
		st.inc("val:" + c.Val)
	}
	sizes := []int{1, 2, 3, 4, 6, 8, 16, 24, 32, 64}
	var ring [48]canary
	seq := 0
	var held []struct {
		k int
		r Ref
	}
	garbage := func(n int) { // churn the size classes the containers use
		for j := 0; j < 24; j++ {
			seq++
			x := newCanary(sizes[(seq+n)%len(sizes)], uint64(seq)*0x0101010101010101+uint64(n))
			if j%3 == 0 {
				ring[(seq+n)%len(ring)] = x
			} else {
				garbageSink = append(garbageSink, x.b)
			}
		}
		if len(garbageSink) > 256 {
			garbageSink = nil
		}
	}
	disturb := func(at int) func() {
		calls := 0
		return func() {
			if calls++; calls == at {
				growStack(64)
				runGC()
				garbage(seq)
				st.inc("collection inside an operation")
			}
		}
	}
	defer func() { userHook = nil }()
	verify := func() {
		for _, x := range ring {
			x.check()
		}
		if len(w.cls) <= 150 {
			w.verifyLookups(seq, true)
		} else {
			for j := 0; j < 80; j++ {
				w.verifyKey(w.cls[(j*37+seq)%len(w.cls)], j, true)
			}
		}
		w.verifyAll()
		for _, h := range held {
			if w.has(h.k) && h.r.Load() != w.model[h.k] {
				failf("%s: a held pointer reads %d, the value of key #%d is %d", c.Kind, h.r.Load(), h.k, w.model[h.k])
			} else {
				h.r.Load()
			}
		}
	}
	for i, op := range c.Ops {
		k := w.c.Class(op.K)
		switch op.O {
		case "gc":
			if st.Class["delete_with_depth"] > 0 {
				st.inc("gc_after_deep_delete")
			}
			runGC()
			verify()
			held = held[:0]
			st.inc("gc")
		case "garbage":
			garbage(op.N + i)
		case "hold":
			if w.c.IsMap() && len(held) < 32 {
				if p := w.c.Ptr(k, op.A); p != nil {
					held = append(held, struct {
						k int
						r Ref
					}{k, p})
				}
			}
		case "modpanic":
			if w.c.IsMap() {
				func() {
					defer func() {
						if e := recover(); e != nil && e != any("stop") {
							panic(e)
						}
					}()
					w.c.Mod(k, op.A, func(Ref, bool) { panic("stop") })
				}()
			}
		default:
			switch op.O {
			case "del", "delrange", "drain":
				held = held[:0] // the pointers may become stale
			}
			if op.H > 0 {
				f := disturb(op.H)
				if op.O == "mod" || op.O == "all" {
					w.inside = f
				} else {
					userHook = func(string) { f() }
				}
			}
			w.common(op)
			w.inside, userHook = nil, nil
			if i%8 == 0 && len(w.cls) < 60 {
				w.verifyLookups(op.A, false)
			}
		}
	}
	runGC()
	verify()
	st.Nontrivial = st.Class["gc_after_deep_delete"] > 0
}

// --- C13 ---

// gcTracker watches key and value objects by class.
type gcTracker struct {
	cur        int
	keys, vals map[int][]func() bool // alive?
}

var tracker *gcTracker

const minTracked = 33 // smaller objects may share an allocation

func trackString(s string) {
	if tracker != nil && len(s) >= minTracked {
		w := weak.Make(unsafeStringData(s))
		tracker.keys[tracker.cur] = append(tracker.keys[tracker.cur], func() bool { return w.Value() != nil })
	}
}

func trackBytes(b []byte) {
	if tracker != nil && len(b) >= minTracked {
		w := weak.Make(&b[0])
		tracker.keys[tracker.cur] = append(tracker.keys[tracker.cur], func() bool { return w.Value() != nil })
	}
}

func trackWords(b []uint64) {
	if tracker != nil && len(b) >= 4 {
		w := weak.Make(&b[0])
		tracker.keys[tracker.cur] = append(tracker.keys[tracker.cur], func() bool { return w.Value() != nil })
	}
}

// Track is a watched value.
type Track struct {
	v    int
	next *Track
	pad  [6]uint64
}

var vTrack = &vcodec[*Track]{"track", func(v int) *Track {
	if v == 0 {
		return nil
	}
	t := &Track{v: v}
	if tracker != nil {
		w := weak.Make(t)
		tracker.vals[tracker.cur] = append(tracker.vals[tracker.cur], func() bool { return w.Value() != nil })
	}
	return t
}, func(t *Track) int {
	if t == nil {
		return 0
	}
	return t.v
}, ident}

// vTrackS has the watched object behind a struct with several fields.
type trackS struct {
	n int
	s []byte
	t *Track
}

var vTrackS = &vcodec[trackS]{"tracks", func(v int) trackS {
	if v == 0 {
		return trackS{}
	}
	return trackS{v, make([]byte, 40), vTrack.enc(v)}
}, func(t trackS) int { return t.n }, ident}

func genC13(r R, tier string, i int) *Case {
	kinds := allKinds()
	c := &Case{Prop: "C13", Kind: pick(r, kinds...), Hash: genHash(r), N: map[string]int64{}}
	if r.Chance(0.15) {
		c.Kind = pick(r, "MapD", "SetD")
	}
	if isMapKind(c.Kind) {
		c.Val = pick(r, "track", "track", "tracks")
	}
	nk, n := genSize(r)
	if r.Chance(0.08) && c.Kind != "MapD" && c.Kind != "SetD" {
		nk = r.Range(300, 1500)
		c.Hash.Mode = 0
	}
	c.Keys = genKeys(r, c.Kind, nk)
	for j := range c.Keys { // long enough to be watched
		k := &c.Keys[j]
		if k.S != nil || keyFamily(c.Kind) == "bytes" || keyFamily(c.Kind) == "arrs" || keyFamily(c.Kind) == "fold" {
			for len(k.S) < minTracked+2 {
				k.S = append(k.S, byte('a'+len(k.S)%26))
			}
		}
		if keyFamily(c.Kind) == "digit" {
			for len(k.D) < 4 {
				k.D = append(k.D, uint64(r.Uint64()))
			}
		}
	}
	c.Ops = genOps(r, len(c.Keys), n, isMapKind(c.Kind), weights{"mod": 8, "ptrset": 4, "get": 5, "val": 4, "ptr": 2, "nop": 6, "all": 2})
	for j := r.Range(3, 25); j < len(c.Ops); j += r.Range(10, 60) {
		c.Ops = append(c.Ops[:j], append([]Op{{O: "check", V: r.IntN(8)}}, c.Ops[j:]...)...)
	}
	if r.Chance(0.5) {
		c.Ops = append(c.Ops, Op{O: "drain", N: r.IntN(len(c.Keys)), K: r.IntN(len(c.Keys))})
	}
	if r.Chance(0.3) {
		c.Ops = append(c.Ops, Op{O: "churn", N: r.Range(1, 6), K: r.IntN(len(c.Keys))})
	}
	return c
}

// isolated runs f on a stack of its own and forwards its panic.
func isolated(f func()) {
	done := make(chan any)
	go func() {
		defer func() {
			e := recover()
			switch e.(type) {
			case nil, *Failure, *Invalid:
			default:
				e = &Failure{"panic: " + fmt.Sprint(e) + "\n" + trimStack(string(debug.Stack()))}
			}
			done <- e
		}()
		f()
	}()
	if e := <-done; e != nil {
		panic(e)
	}
}

var memStats runtime.MemStats

// heapLive returns the live heap: the least of several measurements, each after a collection.
func heapLive() int64 {
	best := int64(1) << 60
	for i := 0; i < 4; i++ {
		runtime.GC()
		runtime.ReadMemStats(&memStats)
		best = min(best, int64(memStats.HeapAlloc))
	}
	return best
}

type box13 struct{ w *world }

func runC13(c *Case, st *Stats) {
	defer func() { tracker, copyDigits = nil, false }()
	copyDigits = true
	st.inc("kind:" + c.Kind)
	// the heap measurement can be disturbed, so an excess has to show up repeatedly
	for try := 0; ; try++ {
		setHash(c.Hash, true)
		excess := tryC13(c, st)
		if excess == "" {
			return
		}
		if try == 7 {
			failf("%s", excess)
		}
		st.inc("heap_remeasured")
	}
}

func tryC13(c *Case, st *Stats) string {
	tracker = &gcTracker{keys: map[int][]func() bool{}, vals: map[int][]func() bool{}}
	b := &box13{}
	var seg []Op
	flush := func() {
		ops := seg
		seg = nil
		isolated(func() {
			if b.w == nil {
				b.w = newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
			}
			w := b.w
			for _, op := range ops {
				op.A = 0
				switch op.O {
				case "nop":
					k := w.c.Class(op.K)
					if w.has(k) {
						if !w.c.IsMap() {
							w.c.Set(k, 0, 0)
						}
					} else {
						w.c.Del(k, 0)
					}
				case "churn":
					before := map[int]int{}
					for k, v := range w.model {
						before[k] = v
					}
					for j := 0; j < op.N; j++ {
						for i := 0; i < w.n; i++ {
							if k := w.c.Class((i + op.K) % w.n); !w.has(k) {
								w.set(k, 0, 1+i)
							}
						}
						for i := 0; i < w.n; i++ {
							if k := w.c.Class((i*7 + op.K) % w.n); w.has(k) {
								if _, keep := before[k]; !keep {
									w.del(k, 0)
								}
							}
						}
						for _, k := range w.cls {
							if _, keep := before[k]; !keep && w.has(k) {
								w.del(k, 0)
							}
						}
					}
					st.inc("churn")
				default:
					w.common(op)
				}
			}
		})
	}
	count := func(fs []func() bool) (n int, rest []func() bool) {
		for _, f := range fs {
			if f() {
				n++
				rest = append(rest, f)
			}
		}
		return
	}
	check := func() {
		flush()
		bad := ""
		for try := 0; try < 6; try++ {
			runtime.GC()
			bad = ""
			for _, t := range []struct {
				m    map[int][]func() bool
				what string
			}{{tracker.keys, "key"}, {tracker.vals, "value"}} {
				for k := range t.m {
					n, rest := count(t.m[k])
					t.m[k] = rest
					if n == 0 {
						delete(t.m, k)
					}
					if !b.w.has(k) && n > 0 {
						bad = fmt.Sprintf("%s: %d %s object(s) of deleted key #%d are still reachable (%d keys present)", c.Kind, n, t.what, k, len(b.w.model))
					} else if n > 1 {
						bad = fmt.Sprintf("%s: %d %s objects of present key #%d are reachable", c.Kind, n, t.what, k)
					}
				}
			}
			if bad == "" {
				break
			}
		}
		if bad != "" {
			failf("%s", bad)
		}
		st.inc("checks")
		if st.Class["delete_with_depth"] > 0 && len(b.w.model) > 0 {
			st.inc("checks_after_deep_delete")
		}
	}
	for _, op := range c.Ops {
		if op.O == "check" {
			check()
			continue
		}
		seg = append(seg, op)
	}
	check()
	// live heap against a twin built directly
	var model map[int]int
	isolated(func() { model = b.w.model; b.w.verifyLookups(0, false) })
	if b.w.c.IsMap() { // values reached through the container only
		for k, v := range model {
			if v < 0 {
				failf("%s: value of key #%d is corrupt", c.Kind, k)
			}
		}
	}
	cls := b.w.cls
	tr := tracker
	tracker = nil
	b2 := &box13{}
	measure := func(x *box13) int64 {
		h0 := heapLive()
		x.w.c = nil
		return h0 - heapLive()
	}
	a := measure(b)
	for try := 0; ; try++ { // the container is unreachable, and so should be its content
		keysLeft, valsLeft := 0, 0
		for k, fs := range tr.keys {
			n, rest := count(fs)
			tr.keys[k] = rest
			keysLeft += n
		}
		for k, fs := range tr.vals {
			n, rest := count(fs)
			tr.vals[k] = rest
			valsLeft += n
		}
		if keysLeft+valsLeft == 0 {
			break
		}
		if try == 6 {
			failf("%s: %d keys and %d values are still reachable after the container itself has been dropped", c.Kind, keysLeft, valsLeft)
		}
		runtime.GC()
	}
	if len(model) > 0 {
		st.inc("dropped_containers_with_content")
	}
	setHash(c.Hash, true)
	// watched as well: the runtime allocates a handle for each weak pointer's target
	tracker = &gcTracker{keys: map[int][]func() bool{}, vals: map[int][]func() bool{}}
	isolated(func() {
		b2.w = newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), nil)
		for _, k := range cls {
			if v, ok := model[k]; ok {
				b2.w.set(k, 0, v)
			}
		}
	})
	tracker = nil
	d := measure(b2)
	st.Nontrivial = st.Class["checks_after_deep_delete"] > 0
	slack := d/50 + 1024
	if c.Kind == "SetInt" || c.Kind == "ArrSet8" { // entries of 8 bytes share allocations with unrelated small objects
		slack += 24 * int64(len(model))
	}
	if a > d+slack {
		return fmt.Sprintf("%s: after its history the container with %d keys retains %d bytes; one built directly retains %d", c.Kind, len(model), a, d)
	}
	st.inc("heap_twins")
	st.max("twin_bytes", float64(d))
	runtime.KeepAlive(b)
	runtime.KeepAlive(b2)
	return ""
}
