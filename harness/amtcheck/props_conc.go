package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

func init() {
	register(&Property{
		ID: "C11", Gen: genC11, Run: runC11, Quick: 10000, Thorough: 240000,
		Variants: []Variant{{Build: "race", Scale: 1, Proc: 4, Env: []string{"GORACE=halt_on_error=1 exitcode=66"}},
			{Build: "plain", Scale: 2, Proc: 4}},
		Rule:   "1..3 shared containers of random families built by a random history (deep colliding prefixes included); 2..8 goroutines started together run scripts of read-only operations (Get/Val/Ptr/Has of present, absent and colliding keys, some over and over, All, stopped All, Len, Dep, Nil) on the shared containers, and goroutines with private containers (same and other families) run arbitrary histories; every result is compared with the model and the whole runs under the race detector, and without it (faster, so with more overlap); non-trivial: at least two goroutines read one shared container with entries below the root, and at least one goroutine deleted with depth in a private container",
		Assume: []string{"schedules are those the Go scheduler produces (random, up to 4 threads); the race detector finds conflicting accesses that are unordered in the executed schedule"},
	})
}

func genC11(r R, tier string, i int) *Case {
	c := &Case{Prop: "C11", Hash: genHash(r), N: map[string]int64{}}
	shared := r.Range(1, 3)
	priv := r.Range(0, 4)
	readers := r.Range(2, 5)
	if r.Chance(0.1) {
		priv, readers = r.Range(4, 6), 0
	}
	c.N["shared"], c.N["readers"], c.N["private"] = int64(shared), int64(readers), int64(priv)
	kinds := allKinds()
	same := pick(r, kinds...)
	pool, kmax := 40, 64
	large := r.Chance(0.01)
	if large {
		pool, kmax = pick(r, r.Range(41, 300), r.Range(301, 3000)), 4096
		massHash(&c.Hash, r)
	}
	for j := 0; j < shared+priv; j++ {
		k := pick(r, kinds...)
		if r.Chance(0.4) {
			k = same
		}
		if r.Chance(0.1) {
			k = pick(r, "MapD", "SetD")
		}
		c.Kinds = append(c.Kinds, k)
		c.Vals = append(c.Vals, pick(r, "int", "string", "box", "pair", "byte"))
		reuse := false
		for q := 0; q < j; q++ {
			if keyFamily(c.Kinds[q]) == keyFamily(k) && r.Chance(0.5) {
				c.Pools, reuse = append(c.Pools, c.Pools[q]), true
				break
			}
		}
		if !reuse {
			c.Pools = append(c.Pools, genKeys(r, k, r.Range(max(3, pool/12), pool)))
		}
	}
	// build phase: H is the container
	for j := 0; j < shared+priv; j++ {
		n := r.Range(4, 60)
		if j >= shared {
			n = r.IntN(10)
		}
		if large {
			c.Ops = append(c.Ops, Op{O: "setrange", H: j, N: len(c.Pools[j]), V: r.Range(1, 999)})
			n = r.IntN(10)
		}
		for _, o := range genOps(r, len(c.Pools[j]), n, isMapKind(c.Kinds[j]), weights{"mod": 8}) {
			o.H = j
			c.Ops = append(c.Ops, o)
		}
	}
	// concurrent phase: H is 1000 + goroutine, N the shared container for readers
	for g := 0; g < readers; g++ {
		for m := r.Range(5, 60); m > 0; m-- {
			s := r.IntN(shared)
			if r.Chance(0.6) {
				s = 0
			}
			c.Ops = append(c.Ops, Op{H: 1000 + g, N: s, K: r.IntN(kmax), A: r.IntN(8), V: r.IntN(100),
				O: pick(r, "get", "get", "get", "val", "ptr", "all", "all", "allstop", "len", "dep", "nil", "copy")})
		}
	}
	if r.Chance(0.3) { // the same few keys over and over
		k, n := r.IntN(kmax), r.Range(2, 6)
		for g := 0; g < readers+priv; g++ {
			for m := r.Range(1, 3); m > 0; m-- {
				c.Ops = append(c.Ops, Op{H: 1000 + g, O: "hammer", K: k, N: n, V: r.Range(30, 400), A: r.IntN(8)})
			}
		}
	}
	for g := 0; g < priv; g++ {
		j := shared + g
		for _, o := range genOps(r, len(c.Pools[j]), r.Range(10, 80), isMapKind(c.Kinds[j]), weights{"get": 5, "mod": 8, "all": 3, "ptr": 3, "len": 2}) {
			o.H = 1000 + readers + g
			c.Ops = append(c.Ops, o)
		}
	}
	return c
}

func runC11(c *Case, st *Stats) {
	shared, readers, priv := c.num("shared"), c.num("readers"), c.num("private")
	if shared+priv != len(c.Kinds) || len(c.Kinds) != len(c.Pools) || len(c.Vals) != len(c.Kinds) || shared < 1 {
		invalidf("containers")
	}
	// no counters and budgets: they would race
	budgetsOn = false
	setHash(c.Hash, false)
	var ws []*world
	for j, k := range c.Kinds {
		if len(c.Pools[j]) == 0 {
			invalidf("pool")
		}
		st.inc("kind:" + k)
		ws = append(ws, newWorld(newC(k, c.Vals[j], c.Pools[j]), len(c.Pools[j]), nil))
	}
	scripts := make([][]Op, readers+priv)
	for _, op := range c.Ops {
		if op.H < 1000 {
			w := ws[op.H%len(ws)]
			op.K %= w.n
			w.common(op)
			continue
		}
		if g := op.H - 1000; g < len(scripts) {
			scripts[g] = append(scripts[g], op)
		}
	}
	hammer := func(w *world, g int, op Op) {
		if op.N < 1 || op.V > 1000 {
			invalidf("hammer")
		}
		for i := 0; i < op.V; i++ {
			w.verifyKey(w.c.Class((op.K+i*(2*g+1)%op.N)%w.n), op.A, i%3 == 0)
		}
	}
	orders := make([][]int, shared)
	deps := make([]float64, shared)
	deepShared := false
	for j := 0; j < shared; j++ {
		ws[j].verifyLookups(0, true)
		orders[j] = ws[j].verifyAll()
		deps[j] = ws[j].c.Dep()
		deepShared = deepShared || deps[j] > 0
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]any, len(scripts))
	depthDel := make([]bool, len(scripts))
	for g := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*Failure); !ok {
						e = fmt.Sprint(e, "\n", trimStack(string(debug.Stack())))
					}
					errs[g] = e
				}
			}()
			<-start
			if g >= readers {
				w := ws[shared+g-readers]
				for i, op := range scripts[g] {
					if op.O == "hammer" {
						hammer(w, g, op)
						continue
					}
					if (op.O == "del" || op.O == "drain" || op.O == "delrange") && w.c.Dep() > 0 {
						depthDel[g] = true
					}
					_, changed := w.common(op)
					if changed && i%4 == 0 {
						w.verifyLookups(op.A, false)
					}
					if i%16 == 0 {
						runtime.Gosched()
					}
				}
				w.verifyLookups(0, true)
				w.verifyAll()
				w.verifyLen()
				return
			}
			for i, op := range scripts[g] {
				if i%8 == g%8 {
					runtime.Gosched()
				}
				if op.O == "hammer" {
					hammer(ws[0], g, op)
					continue
				}
				j := op.N % shared
				w := ws[j]
				k := w.c.Class(op.K % w.n)
				switch op.O {
				case "get":
					w.verifyKey(k, op.A, false)
				case "val", "ptr":
					w.verifyKey(k, op.A, true)
				case "len":
					w.verifyLen()
				case "dep":
					if d := w.c.Dep(); d != deps[j] {
						failf("%s: concurrent Dep is %v, want %v", w.c.Kind(), d, deps[j])
					}
				case "nil":
					if w.c.Nil() {
						failf("%s: Nil is true", w.c.Kind())
					}
				case "copy":
					cp := w.c.Copy()
					if cp.Len() != uint(len(w.model)) {
						failf("%s: Len of a copy is %d, want %d", w.c.Kind(), cp.Len(), len(w.model))
					}
				case "all", "allstop":
					n, stop := 0, len(orders[j])
					if op.O == "allstop" && stop > 0 {
						stop = 1 + op.V%stop
					}
					w.c.All(func(k int, r Ref) bool {
						if n >= stop || orders[j][n] != k {
							failf("%s: concurrent iteration differs from the sequential one", w.c.Kind())
						}
						if r != nil {
							if v := r.Load(); v != w.model[k] {
								failf("%s: concurrent iteration passes value %d for key #%d, want %d", w.c.Kind(), v, k, w.model[k])
							}
						}
						n++
						return n < stop
					})
					if n != stop {
						failf("%s: concurrent iteration makes %d calls, want %d", w.c.Kind(), n, stop)
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g, e := range errs {
		switch e := e.(type) {
		case nil:
		case *Failure:
			panic(&Failure{fmt.Sprintf("goroutine %d: %s", g, e.Msg)})
		default:
			failf("goroutine %d: panic: %v", g, e)
		}
	}
	for j := 0; j < shared; j++ {
		ws[j].verifyLookups(0, true)
		ws[j].verifyAll()
	}
	st.add("goroutines", len(scripts))
	st.add("concurrent_ops", func() (n int) {
		for _, s := range scripts {
			n += len(s)
		}
		return
	}())
	dd := false
	for _, d := range depthDel {
		dd = dd || d
	}
	if dd {
		st.inc("private_delete_with_depth")
	}
	if deepShared {
		st.inc("shared_with_depth")
	}
	st.Nontrivial = deepShared && readers >= 2 && dd
}
