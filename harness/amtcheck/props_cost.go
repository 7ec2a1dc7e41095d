package main

import (
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"time"
)

func init() {
	// C21: time and memory of single operations.
	register(&Property{
		ID: "C21", Gen: genC21, Run: runC21, Quick: 500, Thorough: 12000, Variants: plainVariant,
		Rule:   "containers of all families with 2000..120000 keys of the shapes of C15 under a well-mixed hash, some after deletions; for 24 sampled keys every operation is performed several times and its least duration and least allocation are compared with those of the same operation on a container holding that key alone; so are the bytes allocated by filling and draining the container; non-trivial: at least 20000 keys present",
		Assume: []string{"of 12 repetitions of one operation at least one is not interrupted for 60 microseconds"},
	})
}

func genC21(r R, tier string, i int) *Case {
	c := genC15(r, tier, i)
	c.Prop = "C21"
	c.Ops = nil
	n := r.Range(2000, 20000)
	if r.Chance(0.7) {
		n = r.Range(20000, 60000)
	}
	if r.Chance(0.15) {
		n = r.Range(60000, 120000)
	}
	c.N["n"] = int64(n)
	if c.num("L") > 31 && n > 30000 {
		c.N["L"] = 16
	}
	c.N["churn"] = int64(pick(r, 0, 0, 20, 90))
	if isMapKind(c.Kind) {
		c.Val = pick(r, "int", "string", "big", "byte", "unit")
	}
	return c
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// opCost is the least duration and the least allocation seen.
type opCost struct {
	t time.Duration
	b uint64
}

const (
	costTimes  = 12
	costAllocs = 3
)

// costsOf measures the operations on key k of x, which holds k before and after.
func costsOf(x C, k int) map[string]opCost {
	res := map[string]opCost{}
	for i := 0; i < costTimes+costAllocs; i++ {
		run := func(what string, f func()) {
			c, seen := res[what]
			if i < costTimes {
				t := time.Now()
				f()
				if d := time.Since(t); !seen || d < c.t {
					c.t = d
				}
			} else {
				b := allocated()
				f()
				if d := allocated() - b; i == costTimes || d < c.b {
					c.b = d
				}
			}
			res[what] = c
		}
		run("Nil", func() { x.Nil() })
		run("Len", func() { x.Len() })
		run("Dep", func() { x.Dep() })
		run("Get/Has", func() { x.Get(k, 0) })
		run("All stopped at the first entry", func() { x.All(func(int, Ref) bool { return false }) })
		run("Set/Add of a present key", func() { x.Set(k, 0, 1+i) })
		if x.IsMap() {
			run("Val", func() { x.Val(k, 0) })
			run("Ptr", func() { x.Ptr(k, 0) })
			run("Mod of a present key", func() { x.Mod(k, 0, func(r Ref, _ bool) {}) })
		}
		run("Del", func() { x.Del(k, 0) })
		run("Get/Has of a missing key", func() { x.Get(k, 0) })
		run("Del of a missing key", func() { x.Del(k, 0) })
		if x.IsMap() {
			run("Mod of a missing key", func() { x.Mod(k, 0, func(r Ref, _ bool) { r.Store(1 + i) }) })
			x.Del(k, 0)
		}
		run("Set/Add of a missing key", func() { x.Set(k, 0, 1+i) })
	}
	return res
}

func runC21(c *Case, st *Stats) {
	keys := c15Keys(c)
	n := len(keys)
	st.inc("kind:" + c.Kind)
	st.max("n", float64(n))
	r := rand.New(rand.NewPCG(uint64(c.N["rs"]), 21))
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	x := newC(c.Kind, c.Val, keys)
	var sample []int
	single := map[int]map[string]opCost{}
	single0 := opCost{}
	for len(sample) < min(24, n) {
		k := r.IntN(n)
		if single[k] != nil {
			continue
		}
		y := newC(c.Kind, c.Val, keys[k:k+1])
		y.Set(0, 0, 1)
		single[k] = costsOf(y, 0)
		single0.b = max(single0.b, single[k]["Set/Add of a missing key"].b)
		sample = append(sample, k)
	}
	perm := r.Perm(n)
	b := allocated()
	for _, k := range perm {
		x.Set(k, 0, 1+k&1023)
	}
	bulk := func(what string, ops int, base uint64) {
		if ops == 0 {
			return
		}
		per := float64(allocated()-b) / float64(ops)
		st.max("bytes_per_operation_when_"+what, per)
		if lim := float64(2*base + 1024); per > lim {
			failf("%s: %s a container of %d keys allocates %.0f bytes per operation, the limit is %.0f", c.Kind, what, n, per, lim)
		}
	}
	bulk("filling", n, single0.b)
	if churn := c.num("churn"); churn > 0 {
		b = allocated()
		m := n * churn / 100
		for _, k := range perm[:m] {
			x.Del(k, 0)
		}
		bulk("thinning", m, single0.b)
		for _, k := range perm[:m*9/10] {
			x.Set(k, 0, 1+k&1023)
		}
	}
	for _, k := range sample {
		x.Set(k, 0, 5)
		got := costsOf(x, k)
		for what, g := range got {
			s := single[k][what]
			st.max("nanoseconds_above_single", float64(g.t-s.t))
			st.max("bytes_above_single", float64(g.b)-float64(s.b))
			if g.b > 2*s.b+4096 {
				failf("%s: %s of key #%d among %d keys allocates %d bytes, with no other key %d", c.Kind, what, k, x.Len(), g.b, s.b)
			}
			if g.t > 20*s.t+60*time.Microsecond {
				failf("%s: %s of key #%d among %d keys takes at least %v, with no other key %v", c.Kind, what, k, x.Len(), g.t, s.t)
			}
			st.inc("operations_compared")
		}
	}
	live := int(x.Len())
	if live >= 20000 {
		st.Nontrivial = true
	}
	b = allocated()
	for k := range keys {
		x.Del(k, 0)
	}
	bulk("draining", live, single0.b)
	x = nil
	runtime.GC()
}
