package main

import (
	"sync"
	"time"
)

const shrinkBudget = 45 * time.Second

// shrink minimizes the case of a violation; every candidate runs in a fresh process.
func (o *orch) shrink(r *Replay) *Replay {
	if r.Case == nil || r.Log != "" || r.Process == "exit status 12" || r.Process == "exit status 13" {
		return r
	}
	end := time.Now().Add(shrinkBudget)
	best := *r
	if best.Repeat > 1 && best.Build == "race" {
		best.Repeat = 25
	}
	// first returns the first of the candidates that still fails
	first := func(cands []*Case) *Case {
		for i := 0; i < len(cands) && time.Now().Before(end); i += 8 {
			batch := cands[i:min(i+8, len(cands))]
			ok := make([]outcome, len(batch))
			var wg sync.WaitGroup
			for j := range batch {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := best
					x.Case = batch[j]
					ok[j] = o.exec(&x, 20*time.Second)
				}()
			}
			wg.Wait()
			for j := range batch {
				if ok[j].fails {
					best.Msg, best.Process = ok[j].msg, ok[j].exit
					return batch[j]
				}
			}
		}
		return nil
	}
	cur := r.Case.clone()
	adopt := func(c *Case) bool {
		if c == nil {
			return false
		}
		cur = c
		best.Case = c
		return true
	}
	// chunks tries to remove chunks of a list of the given length
	chunks := func(length func() int, without func(lo, hi int) *Case) {
		for size := max(1, length()/2); size >= 1; {
			removed := false
			for pos := 0; pos < length(); {
				var cands []*Case
				var at []int
				for j := 0; j < 8 && pos+j*size < length(); j++ {
					lo := pos + j*size
					cands = append(cands, without(lo, min(lo+size, length())))
					at = append(at, lo)
				}
				c := first(cands)
				if time.Now().After(end) && c == nil {
					return
				}
				if c == nil {
					pos += 8 * size
					continue
				}
				for j := range cands {
					if cands[j] == c {
						pos = at[j]
					}
				}
				adopt(c)
				removed = true
			}
			if size == 1 && !removed {
				return
			}
			if size > 1 {
				size /= 2
			} else if !removed {
				return
			}
		}
	}
	dropOps := func() {
		chunks(func() int { return len(cur.Ops) }, func(lo, hi int) *Case {
			c := cur.clone()
			c.Ops = append(c.Ops[:lo], c.Ops[hi:]...)
			return c
		})
	}
	dropKeys := func() {
		if len(cur.Pools) > 0 || cur.Prop == "C15" || cur.Prop == "C21" || cur.Prop == "C19" || cur.N["long"] == 1 {
			return
		}
		chunks(func() int { return len(cur.Keys) }, func(lo, hi int) *Case {
			c := cur.clone()
			c.Keys = append(c.Keys[:lo], c.Keys[hi:]...)
			var ops []Op
			for _, op := range c.Ops {
				switch {
				case op.K >= hi:
					op.K -= hi - lo
				case op.K >= lo:
					if op.O != "setrange" && op.O != "delrange" && op.O != "drain" {
						continue
					}
					op.K = 0
				}
				ops = append(ops, op)
			}
			c.Ops = ops
			if len(c.Keys) == 0 {
				c.Ops = nil
			}
			return c
		})
	}
	dropOps()
	dropKeys()
	// bulk operations into elementary ones
	expand := func(c *Case, i int) *Case {
		op := c.Ops[i]
		name := map[string]string{"setrange": "set", "delrange": "del"}[op.O]
		if name == "" || len(c.Keys) == 0 || op.N > 64 || len(c.Pools) > 0 {
			return nil
		}
		d := c.clone()
		var mid []Op
		for j := 0; j < op.N; j++ {
			k := (op.K + j) % len(c.Keys)
			if name == "del" && op.A&2 != 0 {
				k = ((op.K+op.N-j)%len(c.Keys) + len(c.Keys)) % len(c.Keys)
			}
			mid = append(mid, Op{O: name, K: k, A: op.A, V: op.V + j, H: op.H})
		}
		d.Ops = append(append(append([]Op{}, c.Ops[:i]...), mid...), c.Ops[i+1:]...)
		return d
	}
	var cands []*Case
	all := cur
	for i := len(cur.Ops) - 1; i >= 0; i-- {
		if d := expand(all, i); d != nil {
			all = d
		}
	}
	if all != cur {
		cands = append(cands, all)
	}
	if adopt(first(cands)) {
		dropOps()
		dropKeys()
	}
	for _, f := range []func(c *Case){
		func(c *Case) { c.Hash = HashCfg{Seed: c.Hash.Seed} },
		func(c *Case) { c.Hash.Seed, c.Hash.Salt = 1, 1 },
		func(c *Case) {
			if c.Val != "" && c.Prop != "C13" {
				c.Val = "int"
			}
		},
		func(c *Case) {
			for i := range c.Ops {
				c.Ops[i].A = 0
			}
		},
		func(c *Case) {
			for i := range c.Ops {
				if c.Ops[i].O == "set" || c.Ops[i].O == "mod" {
					c.Ops[i].V = i + 1
				}
			}
		},
		func(c *Case) {
			for i := range c.Keys {
				c.Keys[i].S = nil
			}
		},
		func(c *Case) {
			for i := range c.Keys {
				c.Keys[i].D = nil
			}
		},
	} {
		c := cur.clone()
		f(c)
		adopt(first([]*Case{c}))
	}
	for _, name := range []string{"ops", "n"} {
		if cur.Prop != "C15" && cur.Prop != "C21" && cur.Prop != "C19" && cur.N["long"] != 1 {
			break
		}
		for n := cur.N[name]; n > 2; n = n * 3 / 4 {
			c := cur.clone()
			c.N[name] = n * 3 / 4
			if !adopt(first([]*Case{c})) {
				break
			}
		}
	}
	for i := 0; i < len(cur.Keys) && len(cur.Keys) <= 40; i++ {
		var cands []*Case
		if k := cur.Keys[i]; len(k.S) > 0 {
			for _, s := range [][]byte{k.S[:len(k.S)/2], k.S[len(k.S)/2:], k.S[:len(k.S)-1]} {
				c := cur.clone()
				c.Keys[i].S = s
				cands = append(cands, c)
			}
		} else if k.I != 0 && len(k.D) == 0 {
			for _, x := range []int64{0, k.I >> 1, k.I & 0xFF} {
				if x != k.I {
					c := cur.clone()
					c.Keys[i].I = x
					cands = append(cands, c)
				}
			}
		}
		if adopt(first(cands)) {
			i--
		}
	}
	dropOps()
	dropKeys()
	if best.Case == nil {
		best.Case = r.Case
	}
	return &best
}
