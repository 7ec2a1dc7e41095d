package main

import (
	"errors"
	"fmt"
	"hash/maphash"
	"math/bits"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"unsafe"

	"github.com/wdamron/amt"
)

func init() {
	// C17: panics of user code.
	register(&Property{
		ID:  "C17",
		Gen: genC17, Run: runC17, Quick: 300000, Thorough: 9000000, Variants: plainVariant,
		Rule: "random states of generic and Arr containers whose keys call a fault hook in Hash, Equal and KeyBytes, and of all families for callbacks; for a chosen operation and key the fault is placed at the first, second, ... call of user code until the operation completes; each time the call must end by exactly that panic (or Goexit) and Len, Dep, iteration order, values, value addresses and lookups must be as before; non-trivial: at least one fault in a Hash or KeyBytes call of an insertion that collided below the root",
	})
	// C18: seeds.
	register(&Property{
		ID:  "C18",
		Gen: genC18, Run: runC18, Quick: 60000, Thorough: 1500000, Variants: plainVariant,
		Rule:   "2..80 containers of one family with the same content under the real hash/maphash, optionally built through different constructors calls interleaved with operations; iteration orders differ pairwise, colliding pairs found in one container collide in the others only as often as independent hashes would, the order of the same content stays the same after deletions (of everything, too) and re-insertions, the seed handed to user keys is one per container and differs between containers, another process gives different orders, and among thousands of containers of all families, some of them dropped and collected on the way, no two share an order or a seed; non-trivial: at least two containers compared on at least 48 keys",
		Assume: []string{"statistical: thresholds are chosen for a false alarm probability below 1e-12 per case"},
	})
}

// --- C17 ---

// faultPlan makes the left-th call of user code fail.
type faultPlan struct {
	left  int
	how   int
	fired bool
	where string
}

var faults *faultPlan

type customPanic struct{ n int }

var (
	errPanic    = errors.New("user error")
	structPanic = &customPanic{7}
)

func (f *faultPlan) step(where string) {
	if f.left--; f.left != 0 {
		return
	}
	f.fired, f.where = true, where
	switch f.how {
	case 0:
		panic("user panic")
	case 1:
		panic(errPanic)
	case 2:
		panic(structPanic)
	case 3:
		var p *customPanic
		p.n++
	default:
		runtime.Goexit()
	}
}

func (f *faultPlan) expected(e any) bool {
	switch f.how {
	case 0:
		return e == any("user panic")
	case 1:
		return e == any(errPanic)
	case 2:
		return e == any(structPanic)
	case 3:
		re, ok := e.(runtime.Error)
		return ok && strings.Contains(re.Error(), "nil pointer")
	}
	return e == nil
}

// AFault is a byte-array key with a fault hook.
type AFault [8]byte

func (a AFault) KeyBytes() (b [64]byte) {
	if faults != nil {
		faults.step("KeyBytes")
	}
	if userHook != nil {
		userHook("KeyBytes")
	}
	copy(b[:], a[:])
	return
}

var kcAF = &kcodec[AFault]{mk: func(s *KeySpec, _ int) (a AFault) { copy(a[:], s.S); return }, canon: func(k AFault) string { return string(k[:]) }}

func genC17(r R, tier string, i int) *Case {
	kinds := []string{"MapD", "MapD", "MapD", "SetD", "SetD", "ArrMapF", "ArrSetF"}
	if r.Chance(0.25) {
		kinds = allKinds() // callbacks only
	}
	c := genWorldCase("C17", r, kinds, weights{"mod": 5})
	if n := len(c.Keys); n > 60 && n <= 700 && !r.Chance(0.03) {
		c.Keys = genKeys(r, c.Kind, r.Range(5, 60))
		c.Ops = genOps(r, len(c.Keys), r.Range(10, 80), isMapKind(c.Kind), weights{"mod": 5})
		if c.Hash.Mode == 6 && !stagedOK(c.Hash, minHashed(c.Kind, c.Keys)) {
			c.Hash = genHash(r)
		}
	}
	for j := r.Range(0, 8); j < len(c.Ops); j += r.Range(2, 20) {
		op := Op{O: "fault", H: r.IntN(7), K: r.IntN(len(c.Keys)), A: r.IntN(8), V: r.Range(1, 999), N: r.IntN(5)}
		c.Ops = append(c.Ops[:j], append([]Op{op}, c.Ops[j:]...)...)
	}
	return c
}

func runC17(c *Case, st *Stats) {
	defer func() { faults = nil }()
	w := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), st)
	st.inc("kind:" + c.Kind)
	addrs := w.c.IsMap() && c.Val != "unit"
	for _, op := range c.Ops {
		if op.O != "fault" {
			w.common(op)
			continue
		}
		k := w.c.Class(op.K)
		h := op.H
		if !w.c.IsMap() && (h == 1 || h == 4) {
			h = 0
		}
		var what string
		var call func()
		switch h {
		default:
			what, call = "Set/Add", func() { w.set(k, op.A, op.V) }
		case 1:
			what, call = "Mod", func() {
				w.c.Mod(k, op.A, func(r Ref, ok bool) {
					if faults != nil {
						faults.step("callback")
					}
					r.Store(w.c.Norm(op.V))
				})
				w.model[k] = w.c.Norm(op.V)
			}
		case 2:
			what, call = "Del", func() { w.del(k, op.A) }
		case 3:
			what, call = "Get/Has", func() { w.verifyKey(k, op.A, false) }
		case 4:
			what, call = "Val/Ptr", func() { w.verifyKey(k, op.A, true) }
		case 5:
			what, call = "All", func() {
				n := 0
				w.c.All(func(k int, r Ref) bool {
					n++
					if faults != nil {
						faults.step("callback")
					}
					return true
				})
				if n != len(w.model) {
					failf("%s: All visits %d of %d entries after a panic", c.Kind, n, len(w.model))
				}
			}
		}
		had := w.has(k)
		for n := 1; ; n++ {
			if n > 100 { // more user calls than worth enumerating
				faults = nil
				call()
				break
			}
			before := w.snap(addrs)
			below := w.c.Dep() > 0
			f := &faultPlan{left: n, how: op.N}
			returned, e := attempt(f, call)
			if !f.fired {
				if e != nil {
					panic(e)
				}
				break
			}
			switch e := e.(type) {
			case *Failure, *Invalid, maphash.VerifExhausted:
				panic(e)
			}
			if returned {
				failf("%s: %s returns although its user code (%s, call %d) panicked", c.Kind, what, f.where, n)
			}
			if !f.expected(e) {
				failf("%s: a panic in %s during %s reaches the caller as %v", c.Kind, f.where, what, e)
			}
			st.inc("faults_in_" + f.where)
			msg := fmt.Sprintf("%s ended by a panic in user code (%s, call %d)", what, f.where, n)
			w.snap(addrs).mustEqual(before, c.Kind, msg)
			if w.c.Nil() {
				failf("%s: Nil after %s", c.Kind, msg)
			}
			w.verifyLookups(op.A, false)
			if !had && h <= 1 && below && n > 1 && f.where != "callback" {
				st.inc("faults_in_colliding_insertions")
			}
			if h == 2 && had {
				st.inc("faults_in_deletions")
			}
		}
		w.verifyLookups(op.A, true)
		w.verifyLen()
		w.verifyAll()
	}
	// the structure is that of a container built directly with the same seed
	setHash(c.Hash, true)
	d := newWorld(newC(c.Kind, c.Val, c.Keys), len(c.Keys), nil)
	for _, k := range w.cls {
		if w.has(k) {
			d.set(k, 0, w.model[k])
		}
	}
	w.sameStructure(d, "history with panics vs direct construction")
	if f := keyFamily(c.Kind); f == "digit" || strings.HasSuffix(c.Kind, "F") {
		st.Nontrivial = st.Class["faults_in_colliding_insertions"] > 0
	} else {
		st.Nontrivial = st.Class["faults_in_callback"] > 0
	}
}

// mustEqual is same with the roles of a violation report in order.
func (s snapshot) mustEqual(before snapshot, kind, what string) { before.same(s, -1, kind, what) }

// attempt runs f with the fault armed; returned tells whether f returned, e is what it panicked with.
func attempt(p *faultPlan, f func()) (returned bool, e any) {
	if p.how < 4 {
		defer func() {
			faults = nil
			if !returned {
				e = recover()
			}
		}()
		faults = p
		f()
		return true, nil
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			faults = nil
			if !returned {
				e = recover()
			}
		}()
		faults = p
		f()
		returned = true
	}()
	<-done
	return
}

// --- C18 ---

func genC18(r R, tier string, i int) *Case {
	kinds := allKinds()
	c := &Case{Prop: "C18", Kind: kinds[i%len(kinds)], N: map[string]int64{"m": int64(pick(r, 2, 3, 4, 6, 10, 80)), "style": int64(r.IntN(3)), "probe": 0, "pairs": 0, "rs": int64(r.Uint32())}}
	nk := r.Range(48, 160)
	for j := 0; j < nk; j++ {
		k := KeySpec{I: int64(j), S: []byte(fmt.Sprint("key-", j))}
		switch c.num("style") {
		case 1:
			k.I, k.S = int64(r.Uint64()), []byte(fmt.Sprint(j, strings.Repeat("z", 40)))
		case 2:
			k.I, k.S = int64(j)<<32, []byte(fmt.Sprintf("%08x", j))
		}
		if keyFamily(c.Kind) == "digit" {
			k.D = []uint64{r.Uint64()}
		}
		c.Keys = append(c.Keys, k)
	}
	if keyFamily(c.Kind) != "digit" {
		if r.Chance(0.04) {
			c.N["probe"] = 1
		}
		if r.Chance(0.25) {
			c.N["pairs"] = 1
		}
	}
	if i%1200 == 7 {
		c.N["mass"] = int64(pick(r, 3000, 8000, 20000))
	}
	return c
}

// seedBits returns the state of a seed.
func seedBits(s maphash.Seed) uint64 { return *(*uint64)(unsafe.Pointer(&s)) }

// massC18 creates many containers of all families, drops some of them on the way, and compares the orders in which
// they iterate the same keys, and the seeds that are handed to user keys.
func massC18(c *Case, st *Stats) {
	rng := rand.New(rand.NewPCG(uint64(c.N["rs"]), 81))
	kinds := allKinds()
	const nk = 48
	type seen struct {
		i    int
		kind string
	}
	orders := map[string]seen{}
	seeds := map[maphash.Seed]seen{}
	var last []uint64 // the latest seeds
	var kept []C
	defer func() { monitor = nil }()
	for i := 0; i < c.num("mass"); i++ {
		kind := kinds[rng.IntN(len(kinds))]
		keys := c.Keys[:nk]
		digits := keyFamily(kind) == "digit"
		if digits {
			keys, monitor = []KeySpec{{I: 1, D: []uint64{5}}}, newMonitor()
		}
		x := newC(kind, "int", keys)
		for j := range keys {
			x.Set(j, 0, 1)
		}
		now := seen{i, kind}
		if digits {
			for s := range monitor.seeds {
				if o, ok := seeds[s]; ok {
					failf("containers %d (%s) and %d (%s), created by separate calls, hash with the same seed", o.i, o.kind, i, kind)
				}
				seeds[s] = now
				b := seedBits(s)
				for _, l := range last {
					if d := bits.OnesCount64(l ^ b); d < 5 || int64(l-b) < 4096 && int64(l-b) > -4096 {
						failf("the seed %#x of container %d (%s) nearly equals the recent seed %#x: they are not independent", b, i, kind, l)
					}
				}
				if last = append(last, b); len(last) > 4 {
					last = last[1:]
				}
			}
			monitor = nil
			st.inc("seeds_compared")
		} else {
			var fp [nk]byte
			o := orderOf(x)
			if len(o) != nk {
				failf("%s: iteration visits %d of %d keys", kind, len(o), nk)
			}
			for j, k := range o {
				fp[j] = byte(k)
			}
			if o, ok := orders[string(fp[:])]; ok {
				failf("containers %d (%s) and %d (%s), created by separate calls, iterate %d keys in the same order: they share a hash seed", o.i, o.kind, i, kind, nk)
			}
			orders[string(fp[:])] = now
		}
		if rng.IntN(8) == 0 {
			kept = append(kept, x)
		}
		if i%2500 == 2499 {
			kept = kept[len(kept)/2:]
			runtime.GC()
			runtime.GC()
		}
	}
	st.inc("mass")
	st.max("mass_containers", float64(c.num("mass")))
}

func runC18(c *Case, st *Stats) {
	maphash.VerifEnabled, maphash.VerifCounting = false, false
	if c.num("m") < 2 || c.num("m") > 100 || len(c.Keys) < 40 {
		invalidf("too few keys or containers")
	}
	st.inc("kind:" + c.Kind)
	if m := c.num("mass"); m > 0 {
		if m > 100000 {
			invalidf("too many containers")
		}
		massC18(c, st)
	}
	digits := keyFamily(c.Kind) == "digit"
	rng := rand.New(rand.NewPCG(uint64(c.N["rs"]), 18))
	var xs []C
	var orders [][]int
	seeds := map[maphash.Seed]int{}
	defer func() { monitor = nil }()
	for i := 0; i < c.num("m"); i++ {
		x := newC(c.Kind, "int", c.Keys)
		if digits {
			monitor = newMonitor()
		}
		for _, j := range rng.Perm(len(c.Keys)) {
			x.Set(j, 0, 1+j)
		}
		for j := range c.Keys {
			x.Get(j, 1)
			if j%3 == 0 {
				x.Del(j, 0)
				x.Set(j, 0, 2+j)
			}
		}
		if i%3 == 0 { // the seed stays when the container has been emptied
			for _, j := range rng.Perm(len(c.Keys)) {
				x.Del(j, 0)
			}
			if x.Len() != 0 {
				failf("%s: Len is %d after the deletion of all keys", c.Kind, x.Len())
			}
			for _, j := range rng.Perm(len(c.Keys)) {
				x.Set(j, 0, 1+j)
			}
		}
		if digits {
			if len(monitor.seeds) != 1 {
				failf("%s: %d different seeds were used to hash the keys of one container", c.Kind, len(monitor.seeds))
			}
			for s := range monitor.seeds {
				if o, ok := seeds[s]; ok {
					failf("%s: containers %d and %d, created by separate calls, hash with the same seed", c.Kind, o, i)
				}
				seeds[s] = i
			}
			monitor = nil
			st.inc("seeds_compared")
			continue
		}
		xs = append(xs, x)
		orders = append(orders, orderOf(x))
	}
	for i := range orders {
		for j := 0; j < i; j++ {
			if equalInts(orders[i], orders[j]) {
				failf("%s: two containers created by separate calls iterate %d keys in the same order: they share a hash seed", c.Kind, len(orders[i]))
			}
			st.inc("orders_compared")
		}
	}
	for i, x := range xs { // the same content has the same order for the lifetime of a container
		var drop []int
		switch left := rng.IntN(4); left {
		case 0, 1: // all keys, or all but one
			drop = rng.Perm(len(c.Keys))[left:]
		case 2:
			drop = rng.Perm(len(c.Keys))[:rng.IntN(len(c.Keys))]
		}
		y := x.Copy()
		for _, j := range drop {
			y.Del(j, 0)
		}
		rng.Shuffle(len(drop), func(a, b int) { drop[a], drop[b] = drop[b], drop[a] })
		for _, j := range drop {
			if y.IsMap() && j%2 == 0 {
				y.Mod(j, 0, func(r Ref, _ bool) { r.Store(1 + j) })
			} else {
				y.Set(j, 0, 1+j)
			}
		}
		if !equalInts(orders[i], orderOf(x)) {
			failf("%s: the iteration order of the same %d keys changed after %d of them had been deleted and inserted again: the hash seed changed", c.Kind, len(orders[i]), len(drop))
		}
		st.inc("lifetimes_compared")
	}
	if c.num("probe") == 1 {
		self, err := os.Executable()
		if err == nil {
			var out [2]string
			for i := range out {
				b, err := exec.Command(self, "seedprobe", "-prop", c.Kind).Output()
				if err != nil {
					return // no verdict from the probe
				}
				out[i] = string(b)
			}
			if out[0] == out[1] && out[0] != "" {
				failf("%s: two processes iterate the same keys in the same order: the hash seed is predictable", c.Kind)
			}
			st.inc("processes_compared")
		}
	}
	if c.num("pairs") == 1 {
		pairLaw(c, st, rng)
	}
	st.Nontrivial = true
}

// pairLaw finds pairs of keys that collide in one container and counts how often they collide in others.
func pairLaw(c *Case, st *Stats, rng *rand.Rand) {
	a := newC(c.Kind, "int", c.Keys)
	n := len(c.Keys)
	var pairs [][2]int
	for try := 0; try < 4000 && len(pairs) < 8; try++ {
		i, j := rng.IntN(n), rng.IntN(n)
		if a.Class(i) == a.Class(j) {
			continue
		}
		a.Set(i, 0, 1)
		a.Set(j, 0, 1)
		if a.Dep() >= 2 {
			pairs = append(pairs, [2]int{i, j})
		}
		a.Del(i, 0)
		a.Del(j, 0)
	}
	if len(pairs) < 4 {
		return
	}
	trials, hits := 0, 0
	for m := 0; m < 16; m++ {
		b := newC(c.Kind, "int", c.Keys)
		for _, p := range pairs {
			b.Set(p[0], 0, 1)
			b.Set(p[1], 0, 1)
			trials++
			if b.Dep() >= 2 {
				hits++
			}
			b.Del(p[0], 0)
			b.Del(p[1], 0)
		}
	}
	// each trial hits with probability 1/256; 64 to 128 trials, 16 hits or more have probability below 1e-19
	if hits >= 16 {
		failf("%s: pairs of keys colliding on two levels in one container collide in %d of %d cases in other containers", c.Kind, hits, trials)
	}
	st.inc("pair_laws")
}

func orderOf(x C) (o []int) {
	x.All(func(k int, _ Ref) bool { o = append(o, k); return true })
	return
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// seedProbe prints the iteration order of a fresh container.
func seedProbe(kind string) {
	maphash.VerifEnabled = false
	budgetsOn = false
	var keys []KeySpec
	for j := 0; j < 64; j++ {
		keys = append(keys, KeySpec{I: int64(j), S: []byte(fmt.Sprint("key-", j))})
	}
	x := newC(kind, "int", keys)
	for j := range keys {
		x.Set(j, 0, 1)
	}
	fmt.Println(orderOf(x))
}

var _ = amt.HashBytes
